// C07: fuzzy equality dispatches on the exact dynamic types
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/compare/IFuzzyEquatable.h>
#include <memory>
#include <vector>
using namespace stingray;
namespace
{
	struct IShape : public virtual IFuzzyEquatable { virtual int Kind() const = 0; virtual int Value() const = 0; };
	struct Circle : public virtual IShape, public FuzzyEquatable<Circle> { char pad[3]; int r; Circle(int x) : r(x) { } int Kind() const override { return 0; } int Value() const override { return r; } protected: bool DoFuzzyEquals(const Circle& o) const override { return r / 2 == o.r / 2; } };
	struct Extra { virtual ~Extra() { } int e[5]; };
	struct Square : public Extra, public virtual IShape, public FuzzyEquatable<Square> { int a; Square(int x) : a(x) { } int Kind() const override { return 1; } int Value() const override { return a; } protected: bool DoFuzzyEquals(const Square& o) const override { return a / 2 == o.a / 2; } };
	struct Disc : public Circle { int z; Disc(int x) : Circle(x), z(9) { } int Kind() const override { return 2; } };
	struct Big : public Extra, public Disc { Big(int x) : Disc(x) { } int Kind() const override { return 3; } };
	std::unique_ptr<IShape> Make(int kind, int v) { switch (kind) { case 0: return std::unique_ptr<IShape>(new Circle(v)); case 1: return std::unique_ptr<IShape>(new Square(v)); case 2: return std::unique_ptr<IShape>(new Disc(v)); default: return std::unique_ptr<IShape>(new Big(v)); } }
}
SEQ_SCENARIO(fuzzy, .Q(1).T(1))
{
	const int k1 = seq::Pick(4), k2 = seq::Pick(4), v1 = seq::Pick(5), v2 = seq::Pick(5); const std::unique_ptr<IShape> a = Make(k1, v1), b = Make(k2, v2); const bool exp = k1 == k2 && v1 / 2 == v2 / 2; seq::Step();
	SEQ_CHECK_MSG(a->FuzzyEquals(*b) == exp && b->FuzzyEquals(*a) == exp && FuzzyEquals()(*a, *b) == exp && FuzzyEquals()(*b, *a) == exp, "kinds %d %d values %d %d", k1, k2, v1, v2); SEQ_CHECK(FuzzyEquals()(*a, *a) && a->FuzzyEquals(*a));
	const shared_ptr<IShape> p(Make(k1, v1).release()), q(Make(k2, v2).release()), none; SEQ_CHECK(FuzzyEquals()(p, q) == exp && !FuzzyEquals()(p, none) && !FuzzyEquals()(none, q) && FuzzyEquals()(none, none));
	const std::vector<shared_ptr<IShape>> x = { p, none }, y = { q, none }; SEQ_CHECK(std::equal(x.begin(), x.end(), y.begin(), FuzzyEquals()) == exp);
}

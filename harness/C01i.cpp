// C01: the iterators of every container: copies, assignment, both directions, random access
#include <seq/seq.h>
#include <harness/common.h>
#include <harness/iter.h>
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/DataJoiner.h>
#include <stingraykit/collection/IntrusiveList.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/collection/iterators.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <stingraykit/EnumToString.h>
#include <algorithm>
#include <map>
using namespace stingray;
typedef std::pair<int, int> PII;
namespace
{
	struct AsPair { template <typename P_> PII operator () (const P_& p) const { return PII(p.first, p.second); } };
	struct AsInt { template <typename T_> int operator () (const T_& x) const { return x; } };
	struct Node : public IntrusiveListNode<Node> { int id; operator int () const { return id; } };
	struct Num { STINGRAYKIT_ENUM_VALUES(A = 3, B = 5, C = 7); STINGRAYKIT_DECLARE_ENUM_CLASS(Num); };
}
SEQ_SCENARIO(iterator_laws, .Q(3).T(5).Split(2))
{
	std::vector<int> keys; const int n = seq::Pick(depth + 1), kind = seq::Pick(10); for (int i = 0; i < n; ++i) { keys.insert(keys.begin() + seq::Pick(i + 1), i * 2); } SEQ_LOG("kind %d, %d elements", kind, n);
	const size_t z = n; seq::Step(); const AsPair pr = AsPair(); const AsInt in = AsInt();
	switch (kind)
	{
	case 0: { flat_map<int, int> c; flat_set<int> s; for (int k : keys) { c.emplace(k, k + 100); s.insert(k); } vh::ContainerIterLaws(c, pr, z, "flat_map"); const flat_set<int>& cs = s; vh::IterLawsRandom(cs.begin(), cs.end(), in, z, "flat_set"); } break;
	case 1:
	{
		ordered_map<int, int> c; ordered_set<int> s; for (int k : keys) { c.emplace(k, k + 100); s.insert(k); } vh::ContainerIterLaws(c, pr, z, "ordered_map"); vh::ContainerIterLaws(s, in, z, "ordered_set");
		std::vector<int> got; for (auto it = c.begin(); it != c.end(); ++it) got.push_back(it->first); SEQ_CHECK(got == keys); ordered_map<int, int>::const_iterator ci(c.begin()); SEQ_CHECK(n == 0 || ci->first == keys[0]);
	} break;
	case 2: { RefCountingMap<int, int> c; for (int k : keys) c.add(k, [] (int x) { return x + 100; }); const RefCountingMap<int, int>& cc = c; vh::IterLaws(c.begin(), c.end(), pr, z, "RefCountingMap"); vh::IterLaws(cc.begin(), cc.end(), pr, z, "const RefCountingMap"); RefCountingMap<int, int>::const_iterator ci; if (n) { ci = c.find(keys[0]); SEQ_CHECK(ci->second == keys[0] + 100 && ci == cc.find(keys[0])); } for (auto it = c.begin(); it != c.end(); ++it) { it->second = 1; SEQ_CHECK(cc.find(it->first)->second == 1); } } break;
	case 3: { RefCountingSet<int> c; for (int k : keys) c.add(k, [] (int) { }); vh::ContainerIterLaws(c, in, z, "RefCountingSet"); } break;
	case 4:
	{
		std::map<int, int> m; for (int k : keys) m[k] = k + 100; const std::map<int, int>& cm = m;
		vh::IterLawsBack(keys_iterator(m.begin()), keys_iterator(m.end()), in, z, "keys"); vh::IterLawsBack(values_iterator(m.begin()), values_iterator(m.end()), in, z, "values"); vh::IterLawsBack(keys_iterator(cm.begin()), keys_iterator(cm.end()), in, z, "const keys"); vh::IterLawsBack(values_iterator(cm.begin()), values_iterator(cm.end()), in, z, "const values");
		std::vector<int> ks(keys_iterator(cm.begin()), keys_iterator(cm.end())), vs(values_iterator(cm.begin()), values_iterator(cm.end())); int i = 0; for (const auto& p : cm) { SEQ_CHECK(ks[i] == p.first && vs[i] == p.second); ++i; } SEQ_CHECK(i == n);
		for (auto it = values_iterator(m.begin()); it != values_iterator(m.end()); ++it) { *it = 7; SEQ_CHECK(it.base()->second == 7); MapValuesIterator<std::map<int, int>::const_iterator> c(it); SEQ_CHECK(*c == 7); }
		std::map<int, int> u; u[0] = 1; std::copy(cm.begin(), cm.end(), update_iterator(u)); for (const auto& p : cm) SEQ_CHECK(u[p.first] == p.second); SEQ_CHECK(u.size() == (size_t)n + (cm.count(0) ? 0 : 1) && (cm.count(0) || u[0] == 1));
	} break;
	case 5: { Node nd[5]; IntrusiveList<Node> l; struct Clear { IntrusiveList<Node>& l; ~Clear() { while (!l.empty()) l.erase(*l.begin()); } } clear = { l }; for (int i = 0; i < n; ++i) { nd[i].id = keys[i]; l.push_back(nd[i]); } vh::ContainerIterLaws(l, in, z, "IntrusiveList"); } break;
	case 6: { std::vector<u8> d(keys.begin(), keys.end()); ByteData b(d.data(), d.size()); ConstByteData c(d.data(), d.size()); vh::IterLawsRandom(b.begin(), b.end(), in, z, "ByteData"); vh::IterLawsRandom(c.begin(), c.end(), in, z, "ConstByteData"); ConstByteData::const_iterator ci(b.begin()); SEQ_CHECK(!n || *ci == keys[0]); ByteArray a(d.begin(), d.end()); vh::IterLawsRandom(a.begin(), a.end(), in, z, "ByteArray"); } break;
	case 7: { typedef std::vector<u8> VB; const int cut = seq::Pick(n + 1), cut2 = cut + seq::Pick(n - cut + 1); VB p1(keys.begin(), keys.begin() + cut), p2(keys.begin() + cut, keys.begin() + cut2), p3(keys.begin() + cut2, keys.end()); DataJoiner<TypeList<VB, VB, VB>> j(MakeTuple(&p1, &p2, &p3)); vh::IterLawsRandom(j.begin(), j.end(), in, z, "DataJoiner"); } break;
	case 8: { vh::IterLawsRandom(Num::begin(), Num::end(), [] (const Num& x) { return (int)x.val(); }, 3, "an enumeration"); } break;
	case 9: { typedef bimap<std::map<int, int>, std::map<int, int>> B; B b; for (int k : keys) b.left_insert(k, k + 100); const B& c = b; vh::IterLawsBack(c.left_begin(), c.left_end(), pr, z, "bimap"); vh::IterLawsBack(c.right_begin(), c.right_end(), pr, z, "bimap"); } break;
	}
}

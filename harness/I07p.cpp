// I07: pipes of stages: data and the end of data pass every stage in order, and what a stage kept back passes the rest of them
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/DataPipe.h>
#include <string>
#include <vector>
using namespace stingray;
namespace
{
	// collects N items into one text and passes it on; at the end passes on the remainder
	template < int N > struct Pack : public DataPipeStageBase<std::string, std::string>
	{
		std::string kept; int n; Pack() : n(0) { }
		template <typename C> void Process(const std::string& in, const C& next) { kept += in; if (++n == N) { std::string out("<" + kept + ">"); kept.clear(); n = 0; next(out); } }
		template <typename C, typename E> void EndOfData(const C& next, const E& eod) { if (n) { std::string out("(" + kept + ")"); kept.clear(); n = 0; next(out); } eod(); }
		void Reset() { kept.clear(); n = 0; }
	};
	// passes every item on twice
	struct Twice : public DataPipeStageBase<std::string, std::string>
	{
		template <typename C> void Process(const std::string& in, const C& next) { next(in + "1"); next(in + "2"); }
		template <typename C, typename E> void EndOfData(const C&, const E& eod) { eod(); }
	};
	struct Out { typedef void RetType; std::string* o; void operator () (const std::string& s) const { *o += s + " "; } };
	struct Eod { typedef void RetType; std::string* o; void operator () () const { *o += "$ "; } };
	struct Ref // the same, one stage after the other
	{
		std::vector<std::string> kept; std::vector<int> n, size; std::string* o;
		void In(size_t s, const std::string& x) { if (s == size.size()) { *o += x + " "; return; } if (!size[s]) { In(s + 1, x + "1"); In(s + 1, x + "2"); return; } kept[s] += x; if (++n[s] == size[s]) { const std::string out("<" + kept[s] + ">"); kept[s].clear(); n[s] = 0; In(s + 1, out); } }
		void End(size_t s) { if (s == size.size()) { *o += "$ "; return; } if (n[s]) { const std::string out("(" + kept[s] + ")"); kept[s].clear(); n[s] = 0; In(s + 1, out); } End(s + 1); }
	};
	template <typename P> void Drive(int depth, std::vector<int> sizes)
	{
		P p; std::string got, exp; Ref r; r.size = sizes; r.n.resize(sizes.size()); r.kept.resize(sizes.size()); r.o = &exp; Out out = { &got }; Eod eod = { &got }; char c = 'a';
		for (int i = 0; i < depth; ++i)
		{
			switch (seq::Pick(4))
			{
			case 0: case 1: { const std::string x(1, c++); SEQ_LOG("%s", x.c_str()); p.Process(x, out); r.In(0, x); } break;
			case 2: SEQ_LOG("end"); p.EndOfData(out, eod); r.End(0); break;
			case 3: SEQ_LOG("reset"); p.Reset(); for (size_t k = 0; k < sizes.size(); ++k) { r.n[k] = 0; r.kept[k].clear(); } break;
			}
			seq::Step(); SEQ_CHECK_MSG(got == exp, "passed on: %s, expected: %s", got.c_str(), exp.c_str());
		}
	}
}
SEQ_SCENARIO(stages, .Q(7).T(9).Split(4))
{
	switch (seq::Pick(5))
	{
	case 0: Drive<DataPipe<TypeList<Pack<2>>>>(depth, { 2 }); break;
	case 1: Drive<DataPipe<TypeList<Pack<2>, Pack<3>>>>(depth, { 2, 3 }); break;
	case 2: Drive<DataPipe<TypeList<Twice, Pack<3>>>>(depth, { 0, 3 }); break;
	case 3: Drive<DataPipe<TypeList<Pack<2>, Twice, Pack<3>>>>(depth, { 2, 0, 3 }); break;
	case 4: { typedef DataPipe<TypeList<Pack<3>, Pack<2>>> P; P p; p.Process("a"); SEQ_CHECK(p.GetStage<0>().kept == "a" && p.GetStage<1>().kept.empty() && p.GetStage<Pack<3>>().kept == "a"); p.EndOfData(); SEQ_CHECK(p.GetStage<0>().kept.empty() && p.GetStage<1>().kept.empty()); } break;
	}
}

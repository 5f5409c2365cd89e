// Collections as plain vectors: shared by the collection harnesses.
#pragma once
#include "../seq/seq.h"
#include <stingraykit/collection/IEnumerable.h>
#include <stingraykit/collection/KeyValuePair.h>
#include <string>
#include <vector>
using namespace stingray;

namespace
{
	typedef std::vector<int> VI; typedef std::pair<int, int> PII; typedef std::vector<PII> VP;
	std::string Str(const VI& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
	std::string Str(const VP& v) { std::string s; for (auto& x : v) s += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return s; }
	int Raw(int x) { return x; }
	PII Raw(const KeyValuePair<int, int>& p) { return PII(p.Key, p.Value); }
	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
	template < typename V, typename E > V All(const E& e) { V r; while (e->Valid()) { const auto x = e->Get(); SEQ_CHECK_MSG(Raw(x) == Raw(e->Get()), "reading an enumerator's element twice"); r.push_back(Raw(x)); SEQ_CHECK_MSG(r.size() < 50, "endless enumeration"); e->Next(); } return r; }
	template < typename V > V Rev(const V& v) { return V(v.rbegin(), v.rend()); }
	template < typename V, typename E > void Is(const char* what, const E& e, const V& expected) { const V v = All<V>(e); SEQ_CHECK_MSG(v == expected, "%s: %s, expected %s", what, Str(v).c_str(), Str(expected).c_str()); }
	template < typename V > V From(const V& v, size_t i) { return V(v.begin() + i, v.end()); }

	// enumerations taken earlier, which later changes must not affect
	template < typename T, typename V > struct Snaps
	{
		struct S { shared_ptr<IEnumerator<T>> e; shared_ptr<IEnumerable<T>> r; V v; }; std::vector<S> s;
		template < typename C > void Take(const C& c, const V& v)
		{
			S x; const int how = seq::Pick(3); SEQ_LOG(how == 0 ? "enumerate" : how == 1 ? "enumerate and advance" : "reverse");
			if (how == 2) { x.r = c.Reverse(); x.v = Rev(v); } else { x.e = c.GetEnumerator(); x.v = v; if (how == 1 && !v.empty()) { x.e->Next(); x.v.erase(x.v.begin()); } }
			s.push_back(x);
		}
		void Check()
		{
			for (auto& x : s) { if (x.e) Is("an enumeration started before the changes", x.e, x.v); else { Is("a reversed view taken before the changes", x.r->GetEnumerator(), x.v); Is("a reversed view taken before the changes", x.r->GetEnumerator(), x.v); } }
			s.clear();
		}
	};
}

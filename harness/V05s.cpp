// V05: checks and failures: which checks fail, what a failure is caught as and what it says, and how it is wrapped, logged or swallowed.
#include <seq/seq.h>
#include <harness/common.h>
#include <stingraykit/SystemException.h>
#include <stingraykit/diagnostics/ExternalAPIGuard.h>
#include <stingraykit/exception.h>
#include <stingraykit/function/function.h>
#include <stingraykit/log/Logger.h>
#include <stingraykit/optional.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
#include <errno.h>
#include <string.h>
#include <limits>

using namespace stingray;
typedef std::string Str;

namespace
{
	// ---- overflow
	template < typename V, typename I > void Overflow1(V v, I i)
	{
		const __int128 sum = (__int128)v + (__int128)i;
		const bool fits = sum >= (__int128)std::numeric_limits<V>::min() && sum <= (__int128)std::numeric_limits<V>::max();
		bool threw = false;
		try { STINGRAYKIT_CHECK_INTEGER_OVERFLOW(v, i); } catch (const IntegerOverflowException&) { threw = true; }
		SEQ_CHECK_MSG(threw == !fits, "%lld + %lld: %s", (long long)v, (long long)i, threw ? "refused" : "accepted");
	}
	template < typename V, typename I > void OverflowAll()
	{
		for (int v = std::numeric_limits<V>::min(); v <= std::numeric_limits<V>::max(); ++v) { seq::Cases(256); for (int i = std::numeric_limits<I>::min(); i <= std::numeric_limits<I>::max(); ++i) Overflow1<V, I>(v, i); }
	}
	template < typename T > std::vector<T> Edges()
	{
		std::vector<T> r; const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
		for (int d = 0; d < 4; ++d) { r.push_back(lo + d); r.push_back(hi - d); r.push_back(hi / 2 + d); r.push_back(lo / 2 + d); r.push_back(T(d)); r.push_back(T(0) - T(d)); }
		for (size_t b = 6; b < sizeof(T) * 8 - 1; b += 1) { r.push_back(T(1) << b); r.push_back((T(1) << b) - 1); r.push_back(T(0) - (T(1) << b)); }
		return r;
	}
	template < typename V, typename I > void OverflowEdges() { for (V v : Edges<V>()) { seq::Cases(1); for (I i : Edges<I>()) Overflow1<V, I>(v, i); } }

	// ---- what is thrown
	template < typename E > void Raise(const E& e) { STINGRAYKIT_THROW(e); }
	const size_t RaiseLine = __LINE__ - 1;
	struct OwnError : public std::range_error { int code; OwnError(const Str& s, int c) : std::range_error(s), code(c) { } };

	template < typename E, typename F > void CaughtAs(const E& e) // thrown as E, caught as F exactly when F is E or its base
	{
		seq::Cases(1); bool caught = false;
		try { try { Raise(e); } catch (const F&) { caught = true; } } catch (const std::exception&) { }
		SEQ_CHECK_MSG(caught == (std::is_base_of<F, E>::value), "caught as the wrong type");
	}
	template < typename E > void Thrown(const E& e)
	{
		SEQ_CHECK((std::is_base_of<std::exception, E>::value));
		CaughtAs<E, std::exception>(e); CaughtAs<E, std::runtime_error>(e); CaughtAs<E, std::logic_error>(e); CaughtAs<E, std::bad_cast>(e); CaughtAs<E, Exception>(e); CaughtAs<E, ArgumentException>(e); CaughtAs<E, IndexOutOfRangeException>(e);
		CaughtAs<E, MalformedDataException>(e); CaughtAs<E, MalformedJsonException>(e); CaughtAs<E, TimeoutException>(e); CaughtAs<E, OperationCancelledException>(e); CaughtAs<E, SystemException>(e); CaughtAs<E, FileNotFoundException>(e); CaughtAs<E, OwnError>(e); CaughtAs<E, InvalidCastException>(e);
	}
	template < typename E > void Described(const E& e)
	{
		seq::Cases(1); const Str what = e.what();
		try { Raise(e); SEQ_CHECK_MSG(false, "nothing was thrown"); }
		catch (const std::exception& ex)
		{
			SEQ_CHECK_MSG(what == ex.what(), "the message became '%s'", ex.what());
			const stingray::Detail::IToolkitException* const t = dynamic_cast<const stingray::Detail::IToolkitException*>(&ex); SEQ_CHECK_MSG(t, "no place is recorded");
			SEQ_CHECK_MSG(t->GetLine() == RaiseLine && Str(t->GetFilename()) == __FILE__ && Str(t->GetFunctionName()).find("Raise") != Str::npos, "thrown at %s:%zu in %s", t->GetFilename(), t->GetLine(), t->GetFunctionName());
			const Str d = diagnostic_information(ex), line = "at line " + std::to_string(RaiseLine) + "\n";
			SEQ_CHECK_MSG(d.find("\n" + what + "\n") != Str::npos && d.find(__FILE__) != Str::npos && d.find(line) != Str::npos && d.find("Raise") != Str::npos, "described as %s", d.c_str());
			SEQ_CHECK_MSG(d.find(Demangle(typeid(ex).name())) == 0, "described as %s", d.c_str());
			SEQ_CHECK(dynamic_cast<const E*>(&ex));
		}
	}
	template < typename E > void Both(const E& e) { Thrown(e); Described(e); }
	template < typename E > void Simple(const Str& text) { Both(E()); const Str base = E().what(); const E e(text); SEQ_CHECK_MSG(Str(e.what()) == text + ": " + base, "the message is '%s'", e.what()); Both(e); }

	// ---- errno
	Str Kind(const std::exception& ex)
	{
		if (dynamic_cast<const FileNotFoundException*>(&ex)) return "FileNotFound"; if (dynamic_cast<const AccessDeniedException*>(&ex)) return "AccessDenied";
		if (dynamic_cast<const InputOutputException*>(&ex)) return "InputOutput"; if (dynamic_cast<const DeviceBusyException*>(&ex)) return "DeviceBusy";
		if (dynamic_cast<const NoSpaceLeftException*>(&ex)) return "NoSpaceLeft"; if (dynamic_cast<const ResourceUnavailableException*>(&ex)) return "ResourceUnavailable";
		if (dynamic_cast<const SystemException*>(&ex)) return "System"; return "?";
	}

	// ---- logging
	struct Sink : public ILoggerSink { std::vector<LoggerMessage> got; void Log(const LoggerMessage& m) override { got.push_back(m); } };
	STINGRAYKIT_DECLARE_PTR(Sink);
	struct Odd { };
	Str Label(int how) { if (how == 1) throw Exception("label failed"); return "label"; }
	void Body(int what, int& ran) { ++ran; if (what == 1) throw std::runtime_error("std failed"); if (what == 2) STINGRAYKIT_THROW("own failed"); if (what == 3) throw Odd(); if (what == 4) STINGRAYKIT_THROW(LogicException("logic failed")); }
	const char* const BodyText[] = { 0, "std failed", "own failed", 0, "logic failed" };
}

SEQ_SCENARIO(overflow, .Q(0).T(0))
{
	switch (seq::Pick(6))
	{
	case 0: OverflowAll<u8, u8>(); OverflowAll<s8, s8>(); break;
	case 1: OverflowAll<u8, s8>(); OverflowEdges<u16, u8>(); OverflowEdges<s16, s8>(); OverflowEdges<u16, s8>(); OverflowEdges<s16, u8>(); break;
	case 2: OverflowEdges<u16, u16>(); OverflowEdges<s16, s16>(); OverflowEdges<u16, s16>(); OverflowEdges<u32, u16>(); OverflowEdges<s32, u16>(); OverflowEdges<s32, s16>(); OverflowEdges<u32, s16>(); break;
	case 3: OverflowEdges<u32, u32>(); OverflowEdges<s32, s32>(); OverflowEdges<u32, s32>(); break;
	case 4: OverflowEdges<u64, u64>(); OverflowEdges<s64, s64>(); OverflowEdges<u64, s64>(); break;
	case 5: OverflowEdges<s64, u32>(); OverflowEdges<s64, s32>(); OverflowEdges<u64, u32>(); OverflowEdges<u64, s32>(); OverflowEdges<s64, u8>(); OverflowEdges<u64, s8>(); OverflowEdges<s32, u8>(); OverflowEdges<u32, s8>(); break;
	}
	seq::Step();
}

SEQ_SCENARIO(guards, .Q(0).T(0))
{
	seq::Step();
	for (int i = -3; i <= 6; ++i) for (int b = -3; b <= 6; ++b)
	{
		bool threw = false; try { STINGRAYKIT_CHECK_RANGE(i, b); } catch (const IndexOutOfRangeException& e) { threw = true; SEQ_CHECK_MSG(Str(e.what()) == "Index " + std::to_string(i) + " out of range " + std::to_string(b), "%s", e.what()); }
		SEQ_CHECK_MSG(threw == !(i < b), "index %d of %d", i, b);
		for (int e = -3; e <= 6; ++e)
		{
			seq::Cases(1); bool out = false; try { STINGRAYKIT_CHECK_RANGE(i, b, e); } catch (const IndexOutOfRangeException& ex) { out = true; SEQ_CHECK_MSG(Str(ex.what()) == "Index " + std::to_string(i) + " out of range [" + std::to_string(b) + ", " + std::to_string(e) + ")", "%s", ex.what()); }
			SEQ_CHECK_MSG(out == !(i >= b && i < e), "index %d of [%d, %d)", i, b, e);
		}
	}
	for (int ok = 0; ok < 2; ++ok)
	{
		bool threw = false; int evaluated = 0; try { STINGRAYKIT_CHECK((++evaluated, ok), ArgumentException("name", 7)); } catch (const ArgumentException& e) { threw = true; SEQ_CHECK(Str(e.what()) == "Invalid argument 'name' value '7'"); }
		SEQ_CHECK(threw == !ok && evaluated == 1);
		int x = 5; int* const raw = ok ? &x : 0; int* got = 0; Str why;
		try { got = STINGRAYKIT_REQUIRE_NOT_NULL(raw); } catch (const NullPointerException& e) { why = e.what(); } SEQ_CHECK(got == raw && (why.find("raw") != Str::npos) == !ok); why.clear();
		const shared_ptr<int> shared = ok ? make_shared_ptr<int>(6) : shared_ptr<int>(); const shared_ptr<int>* same = 0;
		try { same = &STINGRAYKIT_REQUIRE_NOT_NULL(shared); } catch (const NullPointerException& e) { why = e.what(); } SEQ_CHECK_MSG(same == (ok ? &shared : 0) && (why.find("shared") != Str::npos) == !ok, "shared pointer"); why.clear();
		unique_ptr<int> uniq; if (ok) uniq = make_unique_ptr<int>(7); unique_ptr<int> moved;
		try { moved = STINGRAYKIT_REQUIRE_NOT_NULL(std::move(uniq)); } catch (const NullPointerException& e) { why = e.what(); } SEQ_CHECK_MSG((moved && *moved == 7) == !!ok && !uniq && (why.find("uniq") != Str::npos) == !ok, "unique pointer"); why.clear();
		optional<int> opt; if (ok) opt = 8; int value = 0;
		try { value = *STINGRAYKIT_REQUIRE_INITIALIZED(opt); } catch (const NotInitializedException& e) { why = e.what(); } SEQ_CHECK_MSG(value == (ok ? 8 : 0) && (why.find("opt") != Str::npos) == !ok, "optional"); why.clear();
		try { value = *STINGRAYKIT_REQUIRE_INITIALIZED(ok ? make_optional_value(9) : optional<int>()); } catch (const NotInitializedException& e) { why = "!"; } SEQ_CHECK(value == (ok ? 9 : 0) && why.empty() == !!ok);
	}
}

SEQ_SCENARIO(thrown, .Q(0).T(0))
{
	static const char* const texts[] = { "", "a", "two words", "a\nb", "%s%n", "\"q\"" }; const Str t = texts[seq::Pick(6)]; seq::Step();
	switch (seq::Pick(3))
	{
	case 0:
		Simple<NotImplementedException>(t); Simple<NotSupportedException>(t); Simple<DeviceBusyException>(t); Simple<ResourceUnavailableException>(t); Simple<BrokenPromise>(t); Simple<PromiseAlreadySatisfied>(t); Simple<FutureAlreadyRetrieved>(t);
		Simple<CrcErrorException>(t); Simple<TimeoutException>(t); Simple<InvalidOperationException>(t); Simple<OperationCancelledException>(t); Simple<SocketException>(t); Simple<AccessDeniedException>(t); Simple<NoSpaceLeftException>(t); Simple<InputOutputException>(t);
		break;
	case 1:
		Both(Exception(t)); Both(LogicException(t)); Both(ArgumentException(t)); Both(ArgumentException(t, 5)); Both(NullArgumentException(t)); Both(IndexOutOfRangeException(5, 3)); Both(IndexOutOfRangeException(5, 3, 4)); Both(IntegerOverflowException(250, 9)); Both(FormatException(t));
		Both(MalformedDataException(t)); Both(MalformedJsonException(t)); Both(NullPointerException(t)); Both(NotInitializedException(t)); Both(InvalidCastException(t, "x")); Both(KeyNotFoundException(t)); Both(FileNotFoundException(t)); Both(SystemException(t, EPERM)); Both(std::runtime_error(t)); Both(std::out_of_range(t)); Both(OwnError(t, 3));
		for (const Str& s : { Str(Exception(t).what()), Str(LogicException(t).what()), Str(MalformedDataException(t).what()), Str(MalformedJsonException(t).what()) }) SEQ_CHECK(s == t);
		for (const Str& s : { Str(ArgumentException(t).what()), Str(NullArgumentException(t).what()), Str(FormatException(t).what()), Str(NullPointerException(t).what()), Str(NotInitializedException(t).what()), Str(InvalidCastException(t, "x").what()), Str(KeyNotFoundException(t).what()), Str(FileNotFoundException(t).what()), Str(ArgumentException("q", t).what()) }) SEQ_CHECK_MSG(s.find(t) != Str::npos, "'%s' does not name '%s'", s.c_str(), t.c_str());
		try { Raise(OwnError(t, 3)); } catch (const OwnError& e) { SEQ_CHECK(e.code == 3); }
		break;
	case 2:
		{
			Str got; try { STINGRAYKIT_THROW(t); } catch (const Exception& e) { got = e.what(); } SEQ_CHECK_MSG(got == t, "%s", got.c_str()); got = "?"; try { STINGRAYKIT_THROW(t.c_str()); } catch (const Exception& e) { got = e.what(); } SEQ_CHECK(got == t);
			try { throw std::runtime_error(t); } catch (const std::exception& e) { SEQ_CHECK(diagnostic_information(e) == "std::runtime_error\n" + t); }
			// a copy or a rethrow tells the same
			std::exception_ptr p; try { Raise(TimeoutException(t)); } catch (...) { p = std::current_exception(); }
			try { try { std::rethrow_exception(p); } catch (const TimeoutException&) { throw; } } catch (const std::exception& e) { const stingray::Detail::IToolkitException* const x = dynamic_cast<const stingray::Detail::IToolkitException*>(&e); SEQ_CHECK(x && x->GetLine() == RaiseLine); got = e.what(); } SEQ_CHECK(got.find(t) == 0);
			auto made = STINGRAYKIT_MAKE_EXCEPTION(KeyNotFoundException(t)); const size_t line = __LINE__; SEQ_CHECK(made.GetLine() == line && Str(made.what()) == KeyNotFoundException(t).what()); auto copy = made; SEQ_CHECK(copy.GetLine() == line && Str(copy.what()) == made.what());
		}
		break;
	}
}

SEQ_SCENARIO(wrapped, .Q(3).T(4))
{
	static const char* const texts[] = { "outer", "", "x: y" };
	std::vector<Str> labels; for (int i = 0; i < depth; ++i) { labels.push_back(texts[seq::Pick(3)]); seq::Step(); }
	const int what = seq::Pick(5); int ran = 0;
	std::function<void(int)> nest = [&](int level) { if (level == depth) Body(what, ran); else STINGRAYKIT_WRAP_EXCEPTIONS(labels[level], nest(level + 1)); };
	Str got; bool odd = false, plain = false; try { nest(0); } catch (const Exception& e) { got = e.what(); } catch (const std::exception& e) { plain = true; } catch (const Odd&) { odd = true; }
	SEQ_CHECK(ran == 1 && odd == (what == 3) && plain == (!depth && (what == 1 || what == 4)));
	if (depth && BodyText[what])
	{
		SEQ_CHECK_MSG(!got.empty(), "the failure was lost");
		size_t at = 0; for (const Str& l : labels) { const size_t i = got.find(l + ": ", at); SEQ_CHECK_MSG(i != Str::npos && (at || i == 0), "'%s' does not tell the label '%s'", got.c_str(), l.c_str()); at = i + l.size() + 2; }
		SEQ_CHECK_MSG(got.find(BodyText[what], at) != Str::npos, "'%s' does not tell what failed", got.c_str());
	}
	else if (!BodyText[what]) SEQ_CHECK(got.empty());
}

SEQ_SCENARIO(system_errors, .Q(0).T(0))
{
	const int block = seq::Pick(8); seq::Step();
	for (int e = block * 20; e < block * 20 + 20; ++e)
	{
		seq::Cases(4); const Str name = strerrorname_np(e) ? strerrorname_np(e) : std::to_string(e), text = strerror(e);
		const Str m = SystemException::GetErrorMessage(e); // the name may be spelled as a number where the table has none
		const bool named = m == name + " (" + text + ")", numbered = m == std::to_string(e) + " (" + text + ")", alias = (e == EDEADLK || e == EAGAIN || e == EOPNOTSUPP) && m.find("(" + text + ")") != Str::npos;
		SEQ_CHECK_MSG(named || alias || (numbered && (e == 0 || e > 133 || !strerrorname_np(e) || e == ENOTSUP || e == EHWPOISON)), "error %d is described as %s, expected %s (%s)", e, m.c_str(), name.c_str(), text.c_str());
		const SystemException with("msg", e), path("msg", "/p/q", e); errno = e; const SystemException cur("msg"); errno = e; const Str curText = SystemException::GetErrorMessage();
		SEQ_CHECK(with.GetErrorCode() == e && path.GetErrorCode() == e); SEQ_CHECK_MSG(curText == m, "%s", curText.c_str()); SEQ_CHECK_MSG(cur.GetErrorCode() == e, "errno %d became %d", e, cur.GetErrorCode());
		SEQ_CHECK_MSG(Str(with.what()) == "msg: errno = " + m && Str(path.what()) == "msg '/p/q': errno = " + m && Str(cur.what()) == with.what(), "%s", with.what());
		Str kind = "none"; try { STINGRAYKIT_THROW_SYSTEM_EXCEPTION("msg", "/p/q", e); } catch (const std::exception& ex) { kind = Kind(ex); SEQ_CHECK_MSG(Str(ex.what()).find(e == ENOENT ? "/p/q" : "msg") != Str::npos, "%s", ex.what()); }
		const Str expected = e == ENOENT ? "FileNotFound" : e == EACCES ? "AccessDenied" : e == EIO ? "InputOutput" : e == EBUSY ? "DeviceBusy" : e == ENOSPC ? "NoSpaceLeft" : e == EAGAIN ? "ResourceUnavailable" : "System";
		SEQ_CHECK_MSG(kind == expected, "error %d is thrown as %s", e, kind.c_str());
	}
}

SEQ_SCENARIO(swallowed, .Q(3).T(4))
{
	Logger::SetLogLevel(LogLevel::Trace); const SinkPtr sink = make_shared_ptr<Sink>(); const Token t = Logger::AddSink(sink);
	size_t logged = 0;
	for (int s = 0; s < depth; ++s)
	{
		const int macro = seq::Pick(5), what = seq::Pick(5), how = macro < 3 ? seq::Pick(2) : 0; int ran = 0; bool odd = false; Str through; seq::Step(); SEQ_LOG("macro %d, body %d, label %d", macro, what, how);
		try
		{
			switch (macro)
			{
			case 0: STINGRAYKIT_TRY(Label(how), Body(what, ran)); break;
			case 1: STINGRAYKIT_TRY_EX(Error, Label(how), Body(what, ran)); break;
			case 2: STINGRAYKIT_TRY_EX(Info, Label(how), Body(what, ran)); break;
			case 3: STINGRAYKIT_TRY_NO_MESSAGE(Body(what, ran)); break;
			case 4: STINGRAYKIT_LOG_EXCEPTIONS("label", Body(what, ran)); break;
			}
		}
		catch (const Odd&) { odd = true; } catch (const std::exception& e) { through = e.what(); }
		SEQ_CHECK_MSG(ran == 1 && odd == (what == 3), "the body ran %d times", ran);
		SEQ_CHECK_MSG(through == (macro == 4 && BodyText[what] ? BodyText[what] : ""), "'%s' came through", through.c_str());
		if (BodyText[what]) ++logged;
		SEQ_CHECK_MSG(sink->got.size() == logged, "%zu lines were logged, expected %zu", sink->got.size(), logged);
		if (BodyText[what])
		{
			const LoggerMessage& m = sink->got.back(); const Str text = m.GetMessage();
			SEQ_CHECK_MSG(m.GetLogLevel() == (macro == 1 ? LogLevel::Error : macro == 2 ? LogLevel::Info : LogLevel::Warning), "logged as %s", m.GetLogLevel().ToString().c_str());
			SEQ_CHECK_MSG(text.find(how ? "label failed" : macro == 3 ? "Body(what, ran)" : "label") != Str::npos && (how || text.find(BodyText[what]) != Str::npos), "logged %s", text.c_str());
		}
	}
}

SEQ_SCENARIO(api_guards, .Q(5).T(7))
{
	ExternalAPIGuardStack stack; std::vector<std::pair<bool, int>> model; static const char* const names[] = { "f", "g" };
	std::vector<std::unique_ptr<EnterExternalAPIGuardBase>> in; std::vector<std::unique_ptr<LeaveExternalAPIGuardBase>> out;
	for (int s = 0; s < depth; ++s)
	{
		const int op = seq::Pick(model.empty() ? 4 : 5); seq::Step(); SEQ_LOG("op %d", op);
		if (op < 2) { in.emplace_back(new EnterExternalAPIGuardBase(&stack, names[op])); model.emplace_back(true, op); }
		else if (op < 4) { out.emplace_back(new LeaveExternalAPIGuardBase(&stack, names[op - 2])); model.emplace_back(false, op - 2); }
		else { if (model.back().first) in.pop_back(); else out.pop_back(); model.pop_back(); }
		Str expected; if (model.empty()) expected = "<external API guard stack empty>"; else { expected = model.back().first ? "in external API: " : "in stingray: "; for (size_t i = 0; i < model.size(); ++i) expected += Str(i ? " -> " : "") + names[model[i].second]; }
		SEQ_CHECK_MSG(stack.Get() == expected, "'%s', expected '%s'", stack.Get().c_str(), expected.c_str());
	}
	while (!model.empty()) { if (model.back().first) in.pop_back(); else out.pop_back(); model.pop_back(); }
	EnterExternalAPIGuardBase none(0, "f"); SEQ_CHECK(stack.Get() == "<external API guard stack empty>");
}

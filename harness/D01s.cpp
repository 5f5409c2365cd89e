// D01: calendar arithmetic, durations, alternative representations of time and their texts.
#include "../seq/seq.h"
#include "common.h"
#include <stingraykit/log/Logger.h>
#include <stingraykit/time/ElapsedTime.h>
#include <stingraykit/time/NtpTimestamp.h>
#include <stingraykit/time/RemainingTime.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/time/TimeEngine.h>
#include <stingraykit/time/TimeInterval.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace stingray;

namespace { bool FakeClock = false; s64 MonotonicUs = 0, RealUs = 0; }
extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept
{
	if (!FakeClock) return syscall(SYS_clock_gettime, id, t);
	const s64 us = id == CLOCK_REALTIME ? RealUs : MonotonicUs; t->tv_sec = us / 1000000; t->tv_nsec = us % 1000000 * 1000; return 0;
}
extern "C" int gettimeofday(timeval* t, void* z) noexcept
{
	if (!FakeClock) return syscall(SYS_gettimeofday, t, z);
	t->tv_sec = RealUs / 1000000; t->tv_usec = RealUs % 1000000; return 0;
}

namespace
{
	typedef std::string Str;
	const s64 DayMs = 86400000;
	bool Leap(s64 y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
	int MonthDays(s64 y, int m) { return m == 2 ? (Leap(y) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
	s64 Floor(s64 a, s64 b) { return a / b - (a % b < 0); }
	// days since 1970-01-01 of the first of January
	s64 YearStart(s64 y) { const s64 p = y - 1; return p * 365 + Floor(p, 4) - Floor(p, 100) + Floor(p, 400) - 719162; }
	s64 Days(s64 y, int m, int d) { s64 r = YearStart(y) + d - 1; for (int i = 1; i < m; ++i) r += MonthDays(y, i); return r; }
	struct Civil { s64 Y; int Mo, D, H, Mi, S, Ms, Wd, Yd; };
	Civil ToCivil(s64 ms)
	{
		const s64 day = Floor(ms, DayMs); s64 r = ms - day * DayMs; Civil c; c.Ms = r % 1000; r /= 1000; c.S = r % 60; r /= 60; c.Mi = r % 60; c.H = r / 60;
		c.Wd = ((day + 4) % 7 + 7) % 7; c.Y = 1970 + Floor(day, 366); while (YearStart(c.Y + 1) <= day) ++c.Y; while (YearStart(c.Y) > day) --c.Y;
		c.Yd = day - YearStart(c.Y); int d = c.Yd; c.Mo = 1; while (d >= MonthDays(c.Y, c.Mo)) d -= MonthDays(c.Y, c.Mo++); c.D = d + 1; return c;
	}
	Str Pad(s64 v, size_t n) { Str s = std::to_string(v < 0 ? -v : v); while (s.size() + (v < 0) < n) s.insert(s.begin(), '0'); return v < 0 ? "-" + s : s; }
	bool Same(const BrokenDownTime& b, const Civil& c)
	{ return b.Milliseconds == c.Ms && b.Seconds == c.S && b.Minutes == c.Mi && b.Hours == c.H && b.WeekDay == c.Wd && b.MonthDay == c.D && b.Month == c.Mo && b.YearDay == c.Yd && b.Year == c.Y; }
	Str Show(const BrokenDownTime& b) { char s[160]; snprintf(s, sizeof s, "%d-%d-%d %d:%d:%d.%d wd %d yd %d", b.Year, b.Month, b.MonthDay, b.Hours, b.Minutes, b.Seconds, b.Milliseconds, b.WeekDay, b.YearDay); return s; }
	template < typename F > bool Throws(const F& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
	struct Mute { Mute() { Logger::SetLogLevel(LogLevel::Silent); FakeClock = false; TimeEngine::SetMinutesFromUtc(0); } ~Mute() { FakeClock = false; TimeEngine::SetMinutesFromUtc(0); } };

	const int Offsets[] = { 0, -720, -1, 1, 330, 840 };
	const s64 TimesOfDay[] = { 0, 12 * 3600000LL + 34 * 60000 + 56 * 1000, 86399000, 789, 45296789, 86399999 };
	void CheckInstant(s64 ms, bool texts)
	{
		const Time t(ms); const Civil c = ToCivil(ms); seq::Cases(1);
		TimeEngine::SetMinutesFromUtc(0);
		const BrokenDownTime b = t.BreakDown(TimeKind::Utc);
		SEQ_CHECK_MSG(Same(b, c), "%lld ms is %s", (long long)ms, Show(b).c_str());
		SEQ_CHECK_MSG(Time::FromBrokenDownTime(b, TimeKind::Utc) == t, "%s became %lld ms", Show(b).c_str(), (long long)Time::FromBrokenDownTime(b, TimeKind::Utc).GetMilliseconds());
		SEQ_CHECK_MSG(t.GetMjd() == Floor(ms, DayMs) + 40587 && t.ToNtpTimestamp() == (u64)(Floor(ms, 1000) + 2208988800LL), "%lld ms: MJD %d, NTP %llu", (long long)ms, t.GetMjd(), (unsigned long long)t.ToNtpTimestamp());
		SEQ_CHECK_MSG(Time::FromNtpTimestamp(t.ToNtpTimestamp()).GetMilliseconds() == Floor(ms, 1000) * 1000, "%lld ms: NTP back is %lld", (long long)ms, (long long)Time::FromNtpTimestamp(t.ToNtpTimestamp()).GetMilliseconds());
		const u32 bcd = ((c.H / 10 * 16 + c.H % 10) << 16) + ((c.Mi / 10 * 16 + c.Mi % 10) << 8) + c.S / 10 * 16 + c.S % 10;
		SEQ_CHECK_MSG(t.GetBcdTime(TimeKind::Utc) == bcd && Time::MjdToEpoch(t.GetMjd(), bcd).GetMilliseconds() == Floor(ms, 1000) * 1000, "%lld ms: BCD %x", (long long)ms, t.GetBcdTime(TimeKind::Utc));
		if (ms >= 0 && ms / 1000 <= 0xffffffffLL) SEQ_CHECK_MSG(t.ToTimeT() == ms / 1000 && Time::FromTimeT(t.ToTimeT()).GetMilliseconds() == ms / 1000 * 1000, "%lld ms: time_t", (long long)ms);
		for (int o : Offsets)
		{
			const s64 local = ms + o * 60000LL; if (local < 0 && local % 1000) continue;
			TimeEngine::SetMinutesFromUtc(o); SEQ_CHECK(TimeZone::Current().GetMinutesFromUtc() == o);
			const BrokenDownTime l = t.BreakDown();
			SEQ_CHECK_MSG(Same(l, ToCivil(local)) && Time::FromBrokenDownTime(l) == t && t.BreakDown(TimeKind::Utc).Hours == b.Hours, "%lld ms at %d minutes from UTC is %s", (long long)ms, o, Show(l).c_str());
		}
		TimeEngine::SetMinutesFromUtc(0);
		if (!texts) return;
		const Str date = Pad(c.D, 2) + "/" + Pad(c.Mo, 2) + "/" + Pad(c.Y, 4), clock = Pad(c.H, 2) + ":" + Pad(c.Mi, 2) + ":" + Pad(c.S, 2);
		SEQ_CHECK_MSG(b.ToString() == date + " " + clock + "." + Pad(c.Ms, 3) && t.ToString("", TimeKind::Utc) == b.ToString(), "%s as text is '%s'", Show(b).c_str(), b.ToString().c_str());
		const Str iso = Pad(c.Y, 4) + "-" + Pad(c.Mo, 2) + "-" + Pad(c.D, 2) + "T" + clock + "." + Pad(c.Ms, 3) + "Z";
		SEQ_CHECK_MSG(TimeUtility::ToIso8601(t) == iso, "%s as ISO text is '%s'", Show(b).c_str(), TimeUtility::ToIso8601(t).c_str());
		if (c.Y >= 0) SEQ_CHECK_MSG(TimeUtility::FromIso8601(iso) == t, "'%s' is %lld ms", iso.c_str(), (long long)TimeUtility::FromIso8601(iso).GetMilliseconds());
		if (c.Y > 100) SEQ_CHECK_MSG(Time::FromString(b.ToString(), TimeKind::Utc).GetMilliseconds() == Floor(ms, 1000) * 1000, "'%s' is %lld ms", b.ToString().c_str(), (long long)Time::FromString(b.ToString(), TimeKind::Utc).GetMilliseconds());
		TimeEngine::SetMinutesFromUtc(330);
		const Time end(ms + 5 * DayMs + 3600000); const s64 days = Floor(end.GetMilliseconds() + 330 * 60000, DayMs) - Floor(ms + 330 * 60000, DayMs);
		if (ms > 0) SEQ_CHECK_MSG(t.DaysTo(end) == days && end.DaysTo(t) == -days && t.DaysTo(t) == 0, "%lld ms is %d days before", (long long)ms, t.DaysTo(end));
		TimeEngine::SetMinutesFromUtc(0);
	}
	std::vector<int>& Years() { static std::vector<int> v; if (v.empty()) { for (int y : { 0, 1, 2, 3, 4, 99, 100, 101, 400, 401, 1000, 1582, 1600, 9999, 10000, 20000, 32000, 32766 }) v.push_back(y); for (int y = 1752; y < 2252; ++y) v.push_back(y); } return v; }
}


SEQ_SCENARIO(days, .Q(6).T(6).Split(1))
{
	Mute m; const int year = Years()[seq::Pick(Years().size())];
	for (int mo = 1; mo <= 12; ++mo)
	{
		BrokenDownTime q; q.Year = year; q.Month = mo;
		SEQ_CHECK_MSG(q.GetMaxDaysInMonth() == MonthDays(year, mo) && BrokenDownTime::GetMaxDaysInMonth(year, mo) == MonthDays(year, mo), "month %d of %d has %d days", mo, year, q.GetMaxDaysInMonth());
		for (int d = 1; d <= MonthDays(year, mo); ++d)
		{
			const s64 day = Days(year, mo, d) * DayMs;
			for (size_t i = 0; i < sizeof(TimesOfDay) / sizeof(*TimesOfDay); ++i)
				if (day >= 0 || TimesOfDay[i] % 1000 == 0) CheckInstant(day + TimesOfDay[i], i == (size_t)d % 6);
		}
	}
	if (depth > 0) return;
}

SEQ_SCENARIO(seconds, .Q(1).T(1))
{
	Mute m; const s64 around[] = { -2, -1, 0, 1, 2 };
	for (s64 day : { 0LL, 10957LL, 11016LL, 24855LL, 49710LL, -25567LL, -719162LL, 2932896LL }) for (s64 s = -86401; s <= 86401; s += (s > -3700 && s < 3700) ? 1 : 61) CheckInstant(day * DayMs + s * 1000, s % 17 == 0);
	for (s64 base : { 0LL, 1000LL, 2147483647000LL, 4294967295000LL, 4294967296000LL, 253402300799000LL }) for (s64 d : around) for (s64 f = 0; f < 1000; f += 111) if (base + d * 1000 + f >= 0) CheckInstant(base + d * 1000 + f, true);
	for (s64 ms = 0; ms < 3000; ++ms) CheckInstant(ms, ms % 7 == 0);
	(void)depth;
}

// Instants before 1970 with a fraction of a second: the conversion still inverts, whatever the form.
SEQ_SCENARIO(before, .Q(1).T(1))
{
	Mute m; bool deviates = false; s64 first = 0;
	for (s64 s : { -1LL, -2LL, -59LL, -60LL, -61LL, -3600LL, -86400LL, -86401LL, -951868800LL, -5097600LL }) for (int f = 1; f < 1000; ++f)
	{
		const s64 ms = s * 1000 + f; const Time t(ms); const BrokenDownTime b = t.BreakDown(TimeKind::Utc); seq::Cases(1);
		SEQ_CHECK_MSG(Time::FromBrokenDownTime(b, TimeKind::Utc) == t, "%s became %lld ms", Show(b).c_str(), (long long)Time::FromBrokenDownTime(b, TimeKind::Utc).GetMilliseconds());
		SEQ_CHECK_MSG(t.GetMjd() == Floor(ms, DayMs) + 40587 && t.ToNtpTimestamp() == (u64)(s + 2208988800LL), "%lld ms: MJD %d, NTP %llu", (long long)ms, t.GetMjd(), (unsigned long long)t.ToNtpTimestamp());
		if (Same(b, ToCivil(ms))) continue;
		Civil known = ToCivil((s + 1) * 1000); known.Ms = f - 1000;
		SEQ_CHECK_MSG(Same(b, known), "%lld ms is %s", (long long)ms, Show(b).c_str());
		if (!deviates) first = ms; deviates = true;
	}
	if (deviates) seq::Fail("negative milliseconds in the broken-down form of an instant before 1970, e.g. %lld ms is %s", (long long)first, Show(Time(first).BreakDown(TimeKind::Utc)).c_str());
	(void)depth;
}

SEQ_SCENARIO(filetime, .Q(1).T(1))
{
	Mute m; bool deviates = false; u64 first = 0;
	for (u64 s : { 0ULL, 1ULL, 86400ULL, 11644473599ULL, 11644473600ULL, 11644473601ULL, 13000000000ULL }) for (u64 f : { 0ULL, 1ULL, 9999ULL, 10000ULL, 123456ULL, 5000000ULL, 9999999ULL })
	{
		const u64 ticks = s * 10000000 + f; const s64 whole = ((s64)s - 11644473600LL) * 1000, got = Time::FromWindowsFileTime(ticks).GetMilliseconds(); seq::Cases(1);
		if (got == whole + (s64)(f / 10000)) continue;
		SEQ_CHECK_MSG(got == whole + (s64)f, "%llu ticks are %lld ms", (unsigned long long)ticks, (long long)got);
		if (!deviates) first = ticks; deviates = true;
	}
	if (deviates) seq::Fail("ticks of a Windows file time below a second are taken for milliseconds, e.g. %llu ticks are %lld ms", (unsigned long long)first, (long long)Time::FromWindowsFileTime(first).GetMilliseconds());
	(void)depth;
}

SEQ_SCENARIO(carry, .Q(4).T(4).Split(2))
{
	Mute mute; const int years[] = { 1900, 1969, 1970, 1972, 2000, 2099, 2100, 30000 }, months[] = { -13, -12, -1, 0, 1, 2, 3, 6, 12, 13, 24, 25, 1000 };
	const int y = years[seq::Pick(8)], mo = months[seq::Pick(13)];
	for (int d : { -366, -1, 0, 1, 28, 29, 30, 31, 32, 60, 366, 30000 }) for (int h : { -30000, -25, -1, 0, 1, 23, 24, 48 }) for (int mi : { -1500, -1, 0, 59, 60, 30000 }) for (int s : { -61, -1, 0, 59, 60, 3600, 32767 }) for (int ms : { -1000, -1, 0, 999, 1000, 32767 })
	{
		s64 yy = y + Floor(mo - 1, 12); const int mm = mo - 1 - Floor(mo - 1, 12) * 12 + 1;
		const s64 expected = (((Days(yy, mm, 1) + d - 1) * 24 + h) * 60 + mi) * 60000 + s * 1000LL + ms; seq::Cases(1);
		const BrokenDownTime b(ms, s, mi, h, 3, d, mo, 77, y);
		if (ms == 0 || mi == 0 || s == 0) SEQ_CHECK_MSG(Time::FromBrokenDownTime(b, TimeKind::Utc).GetMilliseconds() == expected, "%s is %lld ms, not %lld", Show(b).c_str(), (long long)Time::FromBrokenDownTime(b, TimeKind::Utc).GetMilliseconds(), (long long)expected);
	}
	const BrokenDownTime b(1, 2, 3, 4, 5, 6, 7, 8, y), s = b.GetDayStart();
	SEQ_CHECK(s.Milliseconds == 0 && s.Seconds == 0 && s.Minutes == 0 && s.Hours == 0 && s.WeekDay == 5 && s.MonthDay == 6 && s.Month == 7 && s.YearDay == 8 && s.Year == y);
	(void)depth;
}

namespace
{
	std::vector<s64>& Micro()
	{
		static std::vector<s64> v; if (!v.empty()) return v;
		for (s64 u : { 1LL, 1000LL, 1000000LL, 60000000LL, 3600000000LL, 86400000000LL }) for (s64 k : { 1, 2, 23, 59 }) for (s64 d : { -1LL, 0LL, 1LL, 499LL, 500LL, 501LL, 999499LL, 999500LL }) { v.push_back(u * k + d); v.push_back(-u * k - d); }
		v.push_back(0); v.push_back(3723456789LL); v.push_back(-3723456789LL); v.push_back(360000000000LL); v.push_back(-4611686018427387904LL); v.push_back(4611686018427387903LL);
		return v;
	}
	TimeDuration Us(s64 v) { return TimeDuration::FromMicroseconds(v); }
}

SEQ_SCENARIO(duration, .Q(1).T(1).Split(1))
{
	Mute mute; const s64 a = Micro()[seq::Pick(Micro().size())]; const TimeDuration A = Us(a); (void)depth;
	SEQ_CHECK_MSG(A.GetMicroseconds() == a && A.GetMilliseconds() == a / 1000 && A.GetSeconds() == a / 1000000 && A.GetMinutes() == a / 60000000 && A.GetHours() == a / 3600000000LL && A.GetDays() == a / 86400000000LL, "parts of %lld us", (long long)a);
	SEQ_CHECK_MSG(A.Absolute() == Us(a < 0 ? -a : a) && (-A).GetMicroseconds() == -a, "absolute value of %lld us", (long long)a);
	const s64 r = a % 1000; const s64 rounded = a / 1000 + (r >= 500 ? 1 : r <= -500 ? -1 : 0);
	SEQ_CHECK_MSG(A.RoundToMilliseconds().GetMicroseconds() == rounded * 1000, "%lld us rounded to %lld us", (long long)a, (long long)A.RoundToMilliseconds().GetMicroseconds());
	for (s64 b : Micro())
	{
		const TimeDuration B = Us(b); seq::Cases(1); s64 w;
		if (!__builtin_add_overflow(a, b, &w)) { TimeDuration c = A; c += B; SEQ_CHECK_MSG((A + B).GetMicroseconds() == w && c == A + B, "%lld us + %lld us", (long long)a, (long long)b); }
		if (!__builtin_sub_overflow(a, b, &w)) { TimeDuration c = A; c -= B; SEQ_CHECK_MSG((A - B).GetMicroseconds() == w && c == A - B, "%lld us - %lld us", (long long)a, (long long)b); }
		if (b) { TimeDuration c = A; c %= B; SEQ_CHECK_MSG(A / B == a / b && (A % B).GetMicroseconds() == a % b && c == A % B, "%lld us / %lld us", (long long)a, (long long)b); }
		SEQ_CHECK_MSG((A < B) == (a < b) && (A <= B) == (a <= b) && (A > B) == (a > b) && (A >= B) == (a >= b) && (A == B) == (a == b) && (A != B) == (a != b), "%lld us against %lld us", (long long)a, (long long)b);
		if (b > -2000000000 && b < 2000000000)
		{
			if (!__builtin_mul_overflow(a, b, &w)) { TimeDuration c = A; c *= (int)b; SEQ_CHECK_MSG((A * (int)b).GetMicroseconds() == w && c == A * (int)b, "%lld us * %lld", (long long)a, (long long)b); }
			if (b) { TimeDuration c = A; c /= (int)b; SEQ_CHECK_MSG((A / (int)b).GetMicroseconds() == a / b && c == A / (int)b, "%lld us / %lld", (long long)a, (long long)b); }
		}
		// instants
		const Time S(b / 2); const s64 ms = a / 1000; Time c = S; c += A; Time d = S; d -= A;
		SEQ_CHECK_MSG((S + A).GetMilliseconds() == b / 2 + ms && (S - A).GetMilliseconds() == b / 2 - ms && c == S + A && d == S - A && (S + A) - A == S, "%lld ms + %lld us", (long long)(b / 2), (long long)a);
		if (b > -1000000000000LL && b < 1000000000000LL && ms > -1000000000000LL && ms < 1000000000000LL)
		{
			const Time T(ms); SEQ_CHECK_MSG((T - S).GetMilliseconds() == ms - b / 2 && S + (T - S) == T, "%lld ms - %lld ms", (long long)ms, (long long)(b / 2));
			SEQ_CHECK_MSG((T < S) == (ms < b / 2) && (T <= S) == (ms <= b / 2) && (T > S) == (ms > b / 2) && (T >= S) == (ms >= b / 2) && (T == S) == (ms == b / 2) && (T != S) == (ms != b / 2) && T.GetSeconds() == ms / 1000, "%lld ms against %lld ms", (long long)ms, (long long)(b / 2));
			const s64 gap = ms > b / 2 ? ms - b / 2 : b / 2 - ms;
			for (s64 j : { 0LL, 1LL, 1000LL, gap, gap + 1, gap - 1 }) if (j >= 0) { const int s = TimeCmp(TimeDuration(j))(T, S); SEQ_CHECK_MSG(gap <= j ? s == 0 : (s < 0) == (ms < b / 2) && s != 0, "%lld ms against %lld ms with %lld ms of jitter", (long long)ms, (long long)(b / 2), (long long)j); }
		}
	}
}

SEQ_SCENARIO(units, .Q(1).T(1))
{
	Mute mute; (void)depth;
	for (s64 i : { 0LL, 1LL, -1LL, 59LL, 60LL, 61LL, -3600LL, 86399LL, 2147483LL, 100000LL })
	{
		SEQ_CHECK_MSG(TimeDuration(i).GetMicroseconds() == i * 1000 && TimeDuration::FromMilliseconds(i) == TimeDuration(i) && TimeDuration::FromSeconds(i).GetMicroseconds() == i * 1000000 && TimeDuration::FromMinutes(i).GetMicroseconds() == i * 60000000
			&& TimeDuration::FromHours(i).GetMicroseconds() == i * 3600000000LL && TimeDuration::FromDays(i).GetMicroseconds() == i * 86400000000LL, "%lld units", (long long)i);
		const Str n = std::to_string(i); seq::Cases(8);
		SEQ_CHECK_MSG(TimeDuration::FromString(n) == TimeDuration(i) && TimeDuration::FromString(n + "h") == TimeDuration::FromHours(i) && TimeDuration::FromString(n + "H") == TimeDuration::FromHours(i) && TimeDuration::FromString(n + "m") == TimeDuration::FromMinutes(i) && TimeDuration::FromString(n + "M") == TimeDuration::FromMinutes(i)
			&& TimeDuration::FromString(n + "s") == TimeDuration::FromSeconds(i) && TimeDuration::FromString(n + "S") == TimeDuration::FromSeconds(i), "text %s with units", n.c_str());
		SEQ_CHECK(Throws([&] { TimeDuration::FromString(n + "x"); }));
	}
	for (s64 i : { 2147483647LL, -2147483648LL }) SEQ_CHECK_MSG(TimeDuration::FromSeconds(i).GetMicroseconds() == i * 1000000 && TimeDuration::FromMinutes(i).GetMicroseconds() == i * 60000000 && TimeDuration::FromHours(i).GetMicroseconds() == i * 3600000000LL, "%lld units", (long long)i);
	SEQ_CHECK(TimeDuration::Second() == TimeDuration(1000) && TimeDuration::Minute() == TimeDuration(60000) && TimeDuration::Hour() == TimeDuration(3600000) && TimeDuration::Day() == TimeDuration(DayMs));
	SEQ_CHECK(TimeDuration::Min() < Us(-9223372036854775807LL) && TimeDuration::Max() > Us(9223372036854775806LL) && Throws([] { TimeDuration::Min().Absolute(); }));
	SEQ_CHECK(Throws([] { TimeDuration::FromString(""); }) && Throws([] { TimeDuration::FromString("h"); }) && Throws([] { TimeDuration::FromString("x5"); }));
	for (int h = 0; h < 100; ++h) for (int mi = 0; mi < 60; ++mi) for (int s : { 0, 9, 10, 59 })
		SEQ_CHECK_MSG(TimeDuration::FromBcdDuration(((h / 10 * 16 + h % 10) << 16) + ((mi / 10 * 16 + mi % 10) << 8) + s / 10 * 16 + s % 10) == TimeDuration(h * 3600000LL + mi * 60000 + s * 1000), "BCD duration %02d:%02d:%02d", h, mi, s);
	for (u32 sec : { 0u, 1u, 2208988799u, 2208988800u, 4294967295u }) for (int ms = 0; ms < 1000; ++ms)
	{
		const Time t(((s64)sec - 2208988800LL) * 1000 + ms); const NtpTimestamp n = NtpTimestamp::FromTime(t); seq::Cases(1);
		SEQ_CHECK_MSG(n.ToTime() == t && n.GetTimestamp() >> 32 == sec, "%lld ms became %lld ms through NTP", (long long)t.GetMilliseconds(), (long long)n.ToTime().GetMilliseconds());
		const double f = (double)(u32)n.GetTimestamp() * 1000 / 4294967296.0; SEQ_CHECK_MSG(f > ms - 1e-3 && f < ms + 1e-3, "fraction of %d ms in NTP is %f ms", ms, f);
		if (sec < 4294967295u) for (s64 d : { -2000000LL, -1000LL, 1000LL, 2000000LL }) { const u64 raw = n.GetTimestamp() + d; const Time q = NtpTimestamp(raw).ToTime(); if (sec && raw) SEQ_CHECK_MSG(q == t, "NTP time next to %lld ms is %lld ms", (long long)t.GetMilliseconds(), (long long)q.GetMilliseconds()); }
	}
}

namespace
{
	bool FormatReference(const Str& f, s64 us, Str& out)
	{
		out.clear(); bool h = false, m = false, s = false; size_t precision = 0, run = 0;
		std::vector<Str> tokens;
		for (size_t i = 0; i < f.size(); )
		{
			Str t(1, f[i++]);
			if (t == "\\") { if (i == f.size()) return false; t += f[i++]; }
			else if (t == "h" || t == "m" || t == "s") { if (i < f.size() && f[i] == t[0]) t += f[i++]; }
			else if (t == "l") while (i < f.size() && f[i] == 'l') t += f[i++];
			h |= t[0] == 'h'; m |= t[0] == 'm'; s |= t[0] == 's'; if (t[0] == 'l') precision = std::max(precision, t.size()); (void)run; tokens.push_back(t);
		}
		precision = std::min<size_t>(precision, 6); s64 unit = 1000000; for (size_t i = 0; i < precision; ++i) unit /= 10;
		const Str sign = us / unit < 0 ? "-" : ""; const s64 a = us < 0 ? -us : us;
		for (const Str& t : tokens)
			switch (t[0])
			{
			case '\\': out += t[1]; break;
			case 'h': out += sign + Pad(a / 3600000000LL, t.size()); break;
			case 'm': out += (h ? "" : sign) + Pad(h ? a / 60000000 % 60 : a / 60000000, t.size()); break;
			case 's': out += (h || m ? "" : sign) + Pad(a / 1000000 % 60, t.size()); break;
			case 'l': { const size_t n = std::min<size_t>(t.size(), 6); out += (h || m || s ? "" : sign) + Pad(a, 1).insert(0, Str(7, '0')).substr(0, 0); const Str digits = Pad(a % 1000000, 6); out += digits.substr(0, n); break; }
			default: out += t;
			}
		return true;
	}
	const s64 FormatSamples[] = { 0, 1, -1, 999, -999, 1000, -100000, 999999, -999999, -1000000, 59999999, -60000000, 3599999999LL, -3600000000LL, 3723456789LL, -3723456789LL, 45296007008LL, 360000000000LL, -360000000001LL };
}

SEQ_SCENARIO(format, .Q(5).T(6).Split(2))
{
	Mute mute; Str f; for (int i = 0; i < depth; ++i) { const int c = seq::Pick(7); if (!c) break; f += "hmsl\\:"[c - 1]; }
	for (s64 us : FormatSamples)
	{
		Str expected, got; seq::Cases(1);
		if (f.empty()) { const s64 ms = us / 1000, a = ms < 0 ? -ms : ms; expected = (ms < 0 ? "-" : "") + Pad(a / 3600000, 2) + ":" + Pad(a / 60000 % 60, 2) + ":" + Pad(a / 1000 % 60, 2) + "." + Pad(a % 1000, 3); }
		else if (!FormatReference(f, us, expected)) { if (us == 0) SEQ_CHECK_MSG(Throws([&] { Us(us).ToString(f); }), "'%s' was accepted", f.c_str()); break; }
		got = Us(us).ToString(f);
		SEQ_CHECK_MSG(got == expected, "%lld us as '%s' is '%s' where '%s' was due", (long long)us, f.c_str(), got.c_str(), expected.c_str());
	}
}

SEQ_SCENARIO(fraction, .Q(1).T(1))
{
	Mute mute; (void)depth;
	for (Str f : { "llll", "lllll", "llllll", "lllllll", "hh:mm:ss.lllllll", "mm.llllll", "l\\l\\h", "\\hh \\mm \\ss" }) for (s64 us : FormatSamples)
	{ Str expected; seq::Cases(1); SEQ_CHECK(FormatReference(f, us, expected)); SEQ_CHECK_MSG(Us(us).ToString(f) == expected, "%lld us as '%s' is '%s' where '%s' was due", (long long)us, f.c_str(), Us(us).ToString(f).c_str(), expected.c_str()); }
}

SEQ_SCENARIO(fields, .Q(5).T(6).Split(2))
{
	Mute mute; const bool wide = seq::Flip(); Str f; const char* alphabet = wide ? "Yyl" : "dMYyhmsl-";
	for (int i = 0; i < (wide ? depth + 4 : depth); ++i) { const int c = seq::Pick(wide ? 4 : 10); if (!c) break; f += alphabet[c - 1]; }
	for (s64 ms : { 951825845007LL, 253402300800123LL, -62135596800000LL })
	{
		const Civil c = ToCivil(ms); Str expected; seq::Cases(1);
		for (size_t i = 0; i < f.size(); )
		{
			auto is = [&](const char* p) { return f.compare(i, strlen(p), p) == 0; };
			if (is("dd")) { expected += Pad(c.D, 2); i += 2; } else if (is("MM")) { expected += Pad(c.Mo, 2); i += 2; } else if (is("YYYY") || is("yyyy")) { expected += Pad(c.Y, 4); i += 4; }
			else if (is("hh")) { expected += Pad(c.H, 2); i += 2; } else if (is("mm")) { expected += Pad(c.Mi, 2); i += 2; } else if (is("ss")) { expected += Pad(c.S, 2); i += 2; } else if (is("lll")) { expected += Pad(c.Ms, 3); i += 3; }
			else expected += f[i++];
		}
		if (f.empty()) continue;
		const Str got = Time(ms).ToString(f, TimeKind::Utc);
		SEQ_CHECK_MSG(got == expected, "%lld ms as '%s' is '%s' where '%s' was due", (long long)ms, f.c_str(), got.c_str(), expected.c_str());
	}
}

SEQ_SCENARIO(zones, .Q(1).T(1))
{
	Mute mute; (void)depth;
	for (int v = -32768; v <= 32767; ++v)
	{
		const bool ok = v >= -720 && v <= 840; const int a = v < 0 ? -v : v; const Str sign = v < 0 ? "-" : "+"; seq::Cases(1);
		if (v % 64 == 0 || (v > -800 && v < 900)) SEQ_CHECK_MSG(Throws([&] { TimeZone z(v); }) == !ok, "a zone at %d minutes", v);
		if (!ok && v % 64) continue;
		const Str texts[] = { sign + std::to_string(a / 60) + ":" + std::to_string(a % 60), sign + Pad(a / 60, 2) + ":" + Pad(a % 60, 2), sign + Pad(a / 60, 2) + Pad(a % 60, 2), sign + Pad(a / 60, 2), Pad(a / 60, 2) + Pad(a % 60, 2), Pad(a / 60, 2) + ":" + Pad(a % 60, 2), Pad(a / 60, 2) };
		for (int k = 0; k < 7; ++k)
		{
			const int e = k < 3 ? v : k == 3 ? v / 60 * 60 : k == 6 ? a / 60 * 60 : a; if (a / 60 > 99 && k != 0 && k != 1 && k != 5) continue;
			const bool valid = e >= -720 && e <= 840;
			if (!valid) SEQ_CHECK_MSG(Throws([&] { TimeZone::FromString(texts[k]); }), "'%s' was accepted as a zone", texts[k].c_str());
			else SEQ_CHECK_MSG(TimeZone::FromString(texts[k]).GetMinutesFromUtc() == e, "'%s' is %d minutes", texts[k].c_str(), TimeZone::FromString(texts[k]).GetMinutesFromUtc());
		}
		if (ok) { const TimeZone z(v); SEQ_CHECK_MSG(TimeZone::FromString(z.ToString()) == z && z.GetMinutesFromUtc() == v, "%d minutes as text is '%s'", v, z.ToString().c_str()); if (v < 840) SEQ_CHECK(z < TimeZone(v + 1) && z != TimeZone(v + 1) && !(TimeZone(v + 1) < z)); }
	}
	for (Str bad : { "", "+", "-", "5", "+5", "123", "+123", "12345", ":", "x:0", "1:x", "1x", "+xx", "+ab00", "1093:0", "65536:0", "71582789:0", "2147483647:59", "15:00", "-13:00" }) { seq::Cases(1); SEQ_CHECK_MSG(Throws([&] { TimeZone::FromString(bad); }), "'%s' was accepted as a zone", bad.c_str()); }
}

SEQ_SCENARIO(texts, .Q(4).T(4).Split(2))
{
	Mute mute; (void)depth; const int years[] = { 5, 30, 31, 99, 100, 101, 1600, 1969, 1970, 2000, 2024, 9999 }; const int days[][2] = { { 1, 1 }, { 2, 28 }, { 2, 29 }, { 3, 1 }, { 12, 31 } }; const int clocks[][3] = { { 0, 0, 0 }, { 23, 59, 59 }, { 9, 8, 7 } }; const int zones[] = { 0, 330, -720 };
	const int y = years[seq::Pick(12)], d = seq::Pick(5), c = seq::Pick(3), zone = zones[seq::Pick(3)]; const int mo = days[d][0], md = days[d][1], h = clocks[c][0], mi = clocks[c][1], s = clocks[c][2];
	const int full = y > 100 ? y : y > 30 ? 1900 + y : 2000 + y; if (md > MonthDays(full, mo)) return;
	TimeEngine::SetMinutesFromUtc(zone);
	const s64 day = Days(full, mo, md) * DayMs, minute = day + h * 3600000LL + mi * 60000, second = minute + s * 1000;
	auto check = [&](const Str& text, s64 utc, bool absolute)
	{
		seq::Cases(2); const s64 u = Time::FromString(text, TimeKind::Utc).GetMilliseconds(), l = Time::FromString(text).GetMilliseconds();
		SEQ_CHECK_MSG(u == utc && l == (absolute ? utc : utc - zone * 60000LL), "'%s' is %lld ms in UTC and %lld ms at %d minutes", text.c_str(), (long long)u, (long long)l, zone);
	};
	for (Str sep : { ".", "/" })
	{
		const Str date = Pad(md, 2) + sep + Pad(mo, 2) + sep + Pad(y, 4), loose = std::to_string(md) + sep + std::to_string(mo) + sep + std::to_string(y), clock = " " + Pad(h, 2) + ":" + Pad(mi, 2);
		check(date, day, false); check(loose, day, false); check(date + clock, minute, false); check(date + clock + ":" + Pad(s, 2), second, false); check(date + clock + ":" + Pad(s, 2) + ".999", second, false);
	}
	const Str date = Pad(y, 4) + "-" + Pad(mo, 2) + "-" + Pad(md, 2), clock = date + "T" + Pad(h, 2) + ":" + Pad(mi, 2), seconds = clock + ":" + Pad(s, 2);
	check(date, day, false); check(clock, minute, false); check(seconds, second, false); check(seconds + "Z", second, true);
	for (int o : { 0, 1, 60, 330, 840 }) { check(seconds + "+" + Pad(o / 60, 2) + ":" + Pad(o % 60, 2), second - o * 60000LL, true); check(seconds + "-" + Pad(o / 60, 2) + ":" + Pad(o % 60, 2), second + o * 60000LL, true); if (o % 60 == 0) check(seconds + "+" + Pad(o / 60, 2), second - o * 60000LL, true); }
	for (Str bad : { "", "x", "1", "1.1", "1/1", "2000-01", "nowt" }) SEQ_CHECK_MSG(Throws([&] { Time::FromString(bad); }), "'%s' was accepted as a time", bad.c_str());
	for (Str tail : { "+", "-", "x01:00", "Z01:00" }) SEQ_CHECK_MSG(Throws([&] { Time::FromString(seconds + tail); }), "'%s' was accepted as a time", (seconds + tail).c_str());
	FakeClock = true; RealUs = 1600000000123456LL; const Time now = Time::Now();
	SEQ_CHECK(Time::FromString("now") == now && Time::FromString("now+5") == now + TimeDuration(5) && Time::FromString("now+2h") == now + TimeDuration::FromHours(2));
	FakeClock = false;
}

SEQ_SCENARIO(iso, .Q(4).T(6).Split(2))
{
	Mute mute; const int years[] = { 0, 1, 1600, 1969, 1970, 2000, 2024, 9999 }; const int y = years[seq::Pick(8)]; const int days[][2] = { { 1, 1 }, { 2, 28 }, { 12, 31 } }; const int d = seq::Pick(3); const int mo = days[d][0], md = days[d][1];
	Str fraction; for (int i = 0; i < depth; ++i) { const int k = seq::Pick(6); if (!k) break; fraction += "04569"[k - 1]; }
	const Str date = Pad(y, 4) + "-" + Pad(mo, 2) + "-" + Pad(md, 2); const s64 day = Days(y, mo, md) * DayMs;
	static const char* const longer[] = { "1234564", "1234565", "9999994", "9999995", "0004994", "0004995", "00049949", "99949999", "000000000001" };
	const int extra = fraction.empty() ? seq::Pick(10) : 0; if (extra) fraction = longer[extra - 1];
	s64 slack = 0; auto check = [&](const Str& text, s64 ms) { seq::Cases(1); const s64 got = TimeUtility::FromIso8601(text).GetMilliseconds(); SEQ_CHECK_MSG(got == ms || got == ms - slack, "'%s' is %lld ms, not %lld", text.c_str(), (long long)got, (long long)ms); };
	if (fraction.empty()) check(date, day);
	for (int c = 0; c < 3; ++c)
	{
		const int h = c == 0 ? 0 : c == 1 ? 23 : 9, mi = c == 0 ? 0 : c == 1 ? 59 : 8, s = c == 0 ? 0 : c == 1 ? 59 : 7;
		// digits beyond milliseconds round, at once or digit by digit; the two differ only after a run of fours
		s64 whole = 0; for (int i = 0; i < 3; ++i) whole = whole * 10 + (i < (int)fraction.size() ? fraction[i] - '0' : 0);
		const size_t p = fraction.size() > 3 ? fraction.find_first_not_of('4', 3) : Str::npos; const bool up = p != Str::npos && fraction[p] > '4'; slack = up && p > 3 ? 1 : 0;
		const s64 ms = day + h * 3600000LL + mi * 60000 + s * 1000 + whole + up;
		const Str text = date + "T" + Pad(h, 2) + ":" + Pad(mi, 2) + ":" + Pad(s, 2) + (fraction.empty() ? "" : "." + fraction); Str lower = text; lower[10] = 't';
		check(text, ms); check(text + "Z", ms); check(lower + "z", ms);
		for (int o : { 0, 1, 60, 330, 840 }) { const Str z = Pad(o / 60, 2) + ":" + Pad(o % 60, 2); check(text + "+" + z, ms - o * 60000LL); check(text + "-" + z, ms + o * 60000LL); }
		if (fraction.size() == 2 && c == 1) for (Str full : { text, text + "Z", text + "+01:30" }) for (size_t i = 0; i < full.size(); ++i)
		{ Str bad = full; bad[i] = 'x'; seq::Cases(1); SEQ_CHECK_MSG(Throws([&] { TimeUtility::FromIso8601(bad); }), "'%s' was accepted", bad.c_str()); }
	}
	if (fraction.empty()) for (Str bad : std::initializer_list<Str>{ "", "Z", "T", date.substr(0, 7), date + "T", date + "T00", date + "T00:00", date + " 00:00:00", date + "T00:00:65536", date + "T00:00:4294967296", date + "T00:00:18446744073709551617", date + "T65536:00:00" })
		SEQ_CHECK_MSG(Throws([&] { TimeUtility::FromIso8601(bad); }), "'%s' was accepted", bad.c_str());
}

namespace
{
	bool DurationReference(const Str& s, s64& seconds, s64& years, s64& months)
	{
		seconds = years = months = 0; size_t i = 0; int parts = 0, order = -1; bool time = false, week = false; if (s.empty() || s[0] != 'P') return false;
		for (i = 1; i < s.size(); )
		{
			if (s[i] == 'T') { if (time) return false; time = true; order = 2; parts = 0; if (++i == s.size()) return false; continue; }
			s64 v = 0; size_t n = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + s[i++] - '0'; ++n; } if (!n || i == s.size()) return false;
			int o; switch (s[i++])
			{
			case 'W': if (time || order >= 0 || week) return false; week = true; o = 2; seconds += v * 7 * 86400; break;
			case 'Y': if (time) return false; o = 0; years = v; break;
			case 'M': o = time ? 4 : 1; if (time) seconds += v * 60; else months = v; break;
			case 'D': if (time) return false; o = 2; seconds += v * 86400; break;
			case 'H': if (!time) return false; o = 3; seconds += v * 3600; break;
			case 'S': if (!time) return false; o = 5; seconds += v; break;
			default: return false;
			}
			if (o <= order) return false; order = o; ++parts;
		}
		return parts > 0 && !(week && (time || s.back() != 'W'));
	}
	// adding calendar years and months to an instant, days that do not exist run into the next month
	s64 AddMonths(s64 base, s64 years, s64 months) { const Civil c = ToCivil(base); s64 y = c.Y + years; int d = c.D; if (c.Mo == 2 && c.D == 29 && !Leap(y)) d = 28; y += Floor(c.Mo - 1 + months, 12); const int mo = (c.Mo - 1 + months) - Floor(c.Mo - 1 + months, 12) * 12 + 1; return Days(y, mo, 1) * DayMs + (d - 1) * DayMs + (base - Floor(base, DayMs) * DayMs); }
}

SEQ_SCENARIO(isoduration, .Q(5).T(6).Split(2))
{
	Mute mute; Str s = "P"; for (int i = 0; i < depth; ++i) { const int c = seq::Pick(9); if (!c) break; s += "2WYMDTHS"[c - 1]; }
	s64 seconds, years, months; seq::Cases(1);
	const bool ok = DurationReference(s, seconds, years, months);
	for (s64 base : { 0LL, 951782400000LL })
	{
		bool thrown = false; TimeDuration got;
		try { got = TimeDurationUtility::FromIso8601(s, Time(base)); } catch (const std::exception&) { thrown = true; }
		SEQ_CHECK_MSG(thrown == !ok, "'%s' was %s", s.c_str(), thrown ? "refused" : "accepted");
		if (ok) SEQ_CHECK_MSG(got.GetMilliseconds() == AddMonths(base, years, months) - base + seconds * 1000, "'%s' since %lld ms is %lld ms", s.c_str(), (long long)base, (long long)got.GetMilliseconds());
		if (!ok) break;
	}
}

SEQ_SCENARIO(spans, .Q(3).T(3).Split(1))
{
	Mute mute; (void)depth; const int part = seq::Pick(64);
	auto plain = [&](s64 s)
	{
		const s64 h = s / 3600, m = s / 60 % 60, q = s % 60; seq::Cases(1); Str e = "PT";
		if (h) e += std::to_string(h) + "H"; if (m || (h && q)) e += std::to_string(m) + "M"; if (q || !s) e += std::to_string(q) + "S";
		const Str got = TimeDurationUtility::ToIso8601(TimeDuration(s * 1000));
		SEQ_CHECK_MSG(got == e, "%lld s is '%s' where '%s' was due", (long long)s, got.c_str(), e.c_str());
		SEQ_CHECK_MSG(TimeDurationUtility::FromIso8601(got).GetSeconds() == s, "'%s' is %lld s", got.c_str(), (long long)TimeDurationUtility::FromIso8601(got).GetSeconds());
	};
	for (s64 s = part * 64; s < part * 64 + 64; ++s) plain(s); for (s64 h : { 23LL, 24LL, 255LL, 32767LL, 32768LL, 65535LL, 65536LL, 1000000LL }) plain((h * 60 + part % 60) * 60 + 59);
	// relative to an instant, years and months are those of the calendar
	const int years[] = { 1970, 1971, 1972, 1999, 2000, 2003, 2096, 2099 }; const int year = years[part / 8], eighth = part % 8;
	for (int mo = 1; mo <= 12; ++mo) for (int d : { 1, 2, 15, 27, 28, 29, 30, 31 })
	{
		if (d > MonthDays(year, mo) || (mo * 8 + d) % 8 != eighth) continue;
		for (s64 tod : { 0LL, 86399LL }) for (s64 days = 0; days < 1600; days += (days < 800 ? 1 : 7)) for (s64 rest : { 0LL, 86399LL, 3601LL })
		{
			if (rest && days % 5) continue;
			const Time base((Days(year, mo, d) * 86400 + tod) * 1000); const s64 s = days * 86400 + rest; seq::Cases(1);
			const Str text = TimeDurationUtility::ToIso8601(TimeDuration(s * 1000), base); s64 cs, cy, cm;
			SEQ_CHECK_MSG(DurationReference(text, cs, cy, cm) && (AddMonths(base.GetMilliseconds(), cy, cm) - base.GetMilliseconds()) / 1000 + cs == s && cm < 12, "%lld s since %lld ms is '%s'", (long long)s, (long long)base.GetMilliseconds(), text.c_str());
			if (days % 3 == 0) { const TimeDuration got = TimeDurationUtility::FromIso8601(text, base); SEQ_CHECK_MSG(got.GetMilliseconds() == s * 1000, "'%s' since %lld ms is %lld s", text.c_str(), (long long)base.GetMilliseconds(), (long long)got.GetSeconds()); }
		}
	}
	if (part) return;
	SEQ_CHECK(Throws([] { TimeDurationUtility::ToIso8601(TimeDuration(-1)); }));
	for (Str t : { "P32768D", "PT40000H", "PT100000M", "PT1000000S", "P5000W", "P4Y11M30DT23H59M59S", "pt5m", "p1y2m3dt4h" })
	{
		s64 s, y, mo; Str up; for (char c : t) up += toupper(c); SEQ_CHECK(DurationReference(up, s, y, mo));
		SEQ_CHECK_MSG(TimeDurationUtility::FromIso8601(t).GetMilliseconds() == AddMonths(0, y, mo) + s * 1000, "'%s' is %lld ms", t.c_str(), (long long)TimeDurationUtility::FromIso8601(t).GetMilliseconds());
	}
	for (Str t : { "P99999999999D", "PT99999999999H", "P40000Y", "P40000M", "P32000Y", "" , "1D", "PT1.5S", "-P1D", "P-1D", "P1D ", " P1D" }) SEQ_CHECK_MSG(Throws([&] { TimeDurationUtility::FromIso8601(t); }), "'%s' was accepted", t.c_str());
}

SEQ_SCENARIO(clocks, .Q(6).T(8).Split(2))
{
	Mute mute; FakeClock = true; MonotonicUs = 5000000123LL; RealUs = 1600000000999999LL;
	TimeEngine::SetMillisecondsSinceEpoch(RealUs / 1000); s64 delta = 0;
	const s64 timeouts[] = { -5, 0, 1000, 2500000 }; const s64 timeout = timeouts[seq::Pick(4)];
	ElapsedTime e; RemainingTime r(Us(timeout)); s64 eStart = MonotonicUs, rStart = MonotonicUs;
	for (int i = 0; i <= depth; ++i)
	{
		const s64 el = MonotonicUs - eStart, used = MonotonicUs - rStart; seq::Cases(1);
		SEQ_CHECK_MSG(e.ElapsedMicroseconds() == el && e.ElapsedMilliseconds() == el / 1000 && e.Elapsed() == Us(el), "elapsed %lld us instead of %lld", (long long)e.ElapsedMicroseconds(), (long long)el);
		SEQ_CHECK_MSG(r.Remaining() == Us(timeout > used ? timeout - used : 0) && r.Expired() == (used >= timeout), "remaining %lld us after %lld of %lld", (long long)r.Remaining().GetMicroseconds(), (long long)used, (long long)timeout);
		SEQ_CHECK_MSG(Time::Now().GetMilliseconds() == RealUs / 1000 + delta && TimeEngine::GetMonotonicMicroseconds() == (u64)MonotonicUs && TimeEngine::GetMonotonicNanoseconds() == (u64)MonotonicUs * 1000, "now is %lld ms", (long long)Time::Now().GetMilliseconds());
		if (i == depth) break;
		switch (seq::Pick(6))
		{
		case 0: MonotonicUs += 1; break;
		case 1: MonotonicUs += 999; RealUs += 999; break;
		case 2: MonotonicUs += 1500000; RealUs += 1500000; break;
		case 3: RealUs -= 3600000000LL; break;
		case 4: SEQ_CHECK_MSG(e.Restart() == Us(el), "restart returned the wrong time"); eStart = MonotonicUs; r.Restart(); rStart = MonotonicUs; break;
		case 5: TimeEngine::SetMillisecondsSinceEpoch(1234567890123LL); delta = 1234567890123LL - RealUs / 1000; break;
		}
	}
	TimeEngine::SetMillisecondsSinceEpoch(RealUs / 1000);
}

SEQ_SCENARIO(intervals, .Q(4).T(4).Split(1))
{
	Mute mute; (void)depth; const s64 p[] = { 0, 1, 1000, 1001, 86400000 }; const s64 a = p[seq::Pick(5)], b = p[seq::Pick(5)];
	if (a > b) { SEQ_CHECK(Throws([&] { TimeInterval i((Time(a)), (Time(b))); })); return; }
	const TimeInterval i((Time(a)), (Time(b))); SEQ_CHECK(i.GetDuration() == TimeDuration(b - a) && i.GetStart() == Time(a) && i.GetEnd() == Time(b) && i.IsEmpty() == (a == b));
	for (s64 t : p) { seq::Cases(1); SEQ_CHECK(i.Contains(Time(t)) == (a != b && a <= t && t <= b) && i.ContainsStrict(Time(t)) == (a < t && t < b) && i.Clamp(Time(t)) == Time(t < a ? a : t > b ? b : t)); }
	const s64 c = p[seq::Pick(5)], d = p[seq::Pick(5)]; if (c > d) return;
	const TimeInterval j((Time(c)), (Time(d))); const s64 s = std::max(a, c), e = std::min(b, d); const bool meet = a != b && c != d && s < e;
	SEQ_CHECK(i.IsIntersecting(j) == meet && (i == j) == (a == c && b == d) && (i != j) == !(i == j)); const TimeInterval both = i.Intersect(j), any = i.Union(j);
	SEQ_CHECK(meet ? both == TimeInterval(Time(s), Time(e)) : both.IsEmpty()); SEQ_CHECK(any == (a == b ? j : c == d ? i : TimeInterval(Time(std::min(a, c)), Time(std::max(b, d)))));
}

// Z02: compressing and decompressing with a dictionary returns the original text, for every short text over small alphabets,
// every short training text, several model configurations and consumers that take the output in any portions.
#include <seq/seq.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/io/IDataSource.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/compression/ppm/PpmDictionaryFactory.h>

using namespace stingray;
typedef std::string Str;
typedef std::vector<u8> Bytes;

namespace
{
	typedef PpmConfig<u8, u32> Cfg;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<2, u8>, PpmModelConfig<1, u8>, PpmModelConfig<0, u8>>> F210;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<1, u16>, PpmModelConfig<0, u16>>> F10;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<0, u16>>> F0;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<0, u8>>> F0b;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<1, u8>, PpmModelConfig<0, u8>>> F10b;
	typedef PpmDictionaryFactory<Cfg, TypeList<PpmModelConfig<3, u8>, PpmModelConfig<1, u16>, PpmModelConfig<0, u16>>> F310;

	struct Sink : public virtual IDataConsumer
	{
		int Mode; size_t Calls; Bytes Got; int Eods;
		explicit Sink(int mode) : Mode(mode), Calls(0), Eods(0) { }
		size_t Process(ConstByteData data, const ICancellationToken&) override
		{
			if (Eods)
				seq::Fail("data delivered after the end of data");
			++Calls;
			size_t n = data.size();
			switch (Mode)
			{
			case 1: n = std::min<size_t>(n, 1); break;
			case 2: n = Calls % 2 ? 0 : std::min<size_t>(n, 1); break;
			case 3: n = Calls % 3 == 1 ? 0 : std::min<size_t>(n, 5); break;
			case 4: n = std::min<size_t>(n, 1000); break;
			case 5: n = Calls % 2 ? 0 : n; break;
			}
			Got.insert(Got.end(), data.begin(), data.begin() + n);
			return n;
		}
		void EndOfData(const ICancellationToken&) override { ++Eods; }
	};

	// hands the bytes out in portions of a given size
	struct Source : public virtual IDataSource
	{
		Bytes Data; size_t Pos, Portion;
		Source(const Bytes& d, size_t portion) : Data(d), Pos(0), Portion(portion) { }
		void Read(IDataConsumer& c, const ICancellationToken& t) override
		{
			if (Pos == Data.size()) { c.EndOfData(t); return; }
			// an exactly sized copy, so that reading beyond the portion is detected
			const size_t n = std::min(Portion, Data.size() - Pos);
			const Bytes b(Data.begin() + Pos, Data.begin() + Pos + n);
			const size_t taken = c.Process(ConstByteData(b.data(), b.size()), t);
			if (taken > n)
				seq::Fail("took %zu of %zu bytes", taken, n);
			Pos += taken;
		}
	};

	Bytes Drain(IDataSource& s, int mode, const char* what)
	{
		Sink sink(mode);
		size_t idle = 0;
		while (!sink.Eods)
		{
			const size_t before = sink.Got.size();
			s.Read(sink, DummyCancellationToken());
			if (sink.Got.size() > 100000)
				seq::Fail("%s: output does not end", what);
			idle = before == sink.Got.size() ? idle + 1 : 0;
			if (idle > 20000)
				seq::Fail("%s: no progress", what);
		}
		if (sink.Eods != 1)
			seq::Fail("%s: end of data reported %d times", what, sink.Eods);
		return sink.Got;
	}

	Str Show(const Bytes& b)
	{
		Str r = std::to_string(b.size()) + ":";
		for (size_t i = 0; i < b.size() && i < 40; ++i)
			r += b[i] >= 32 && b[i] < 127 ? Str(1, char(b[i])) : "\\" + std::to_string(b[i]);
		return r;
	}

	Bytes RoundTrip(ICompressionDictionary& dict, const Bytes& text, int cmode, int dmode, size_t portion, const char* name)
	{
		Bytes packed;
		try
		{
			const ICompressorPtr c = dict.Compress(make_shared_ptr<Source>(text, portion));
			packed = Drain(*c, cmode, "compression");
		}
		catch (const std::exception& ex)
		{ seq::Fail("%s: compressing %s failed: %s", name, seq::Quote(Show(text)).c_str(), ex.what()); }
		Bytes out;
		try
		{
			const IDecompressorPtr d = dict.Decompress(make_shared_ptr<Source>(packed, portion));
			out = Drain(*d, dmode, "decompression");
		}
		catch (const std::exception& ex)
		{ seq::Fail("%s: decompressing %s (from %s) failed: %s", name, seq::Quote(Show(packed)).c_str(), seq::Quote(Show(text)).c_str(), ex.what()); }
		if (out != text)
		{
			size_t i = 0;
			while (i < out.size() && i < text.size() && out[i] == text[i])
				++i;
			seq::Fail("%s: %s became %s (first difference at %zu; consumers %d/%d, portions of %zu)", name, seq::Quote(Show(text)).c_str(), seq::Quote(Show(out)).c_str(), i, cmode, dmode, portion);
		}
		return packed;
	}

	template <typename F>
	ICompressionDictionaryPtr Train(const Bytes& t, size_t low = 100000000, size_t high = 200000000, size_t fin = 100000000)
	{
		const F f(low, high, fin);
		const ICompressionDictionaryBuilderPtr b = f.CreateBuilder();
		b->Process(ConstByteData(t.data(), t.size()));
		return b->Finish();
	}

	Bytes PickText(int maxLen, int letters)
	{
		static const u8 L[] = { 'a', 0, 255, 'b' };
		const int n = seq::Pick(maxLen + 1);
		Bytes r;
		for (int i = 0; i < n; ++i)
			r.push_back(L[seq::Pick(letters)]);
		return r;
	}

	template <typename F>
	void Short(int depth, int letters, const char* name)
	{
		const int tl = std::min(3, depth);
		Bytes training = PickText(tl - 1, letters);
		training.push_back(seq::Flip() ? 'a' : 255);
		const ICompressionDictionaryPtr d = Train<F>(training);
		const Bytes text = PickText(depth, letters);
		const int mode = seq::Pick(4);
		RoundTrip(*d, text, mode, mode, mode == 1 ? 1 : mode == 2 ? 2 : 100000, name);
	}
}

SEQ_SCENARIO(short210, .Q(5).T(7).Split(2)) { Short<F210>(depth, 3, "210"); }
SEQ_SCENARIO(short10, .Q(5).T(7).Split(2)) { Short<F10>(depth, 3, "10"); }
SEQ_SCENARIO(short310, .Q(5).T(7).Split(2)) { Short<F310>(depth, 3, "310"); }
SEQ_SCENARIO(short0, .Q(5).T(7).Split(2)) { Short<F0>(depth, 3, "0"); }

// skewed statistics: letters trained many times, so that many symbols cost a fraction of a bit and counts exceed the probability type
template <typename F>
void Skewed(int depth, const char* name)
{
	static const size_t Counts[] = { 0, 1, 100, 254, 255, 256, 300, 1000, 70000 };
	Bytes training;
	const u8 letters[] = { 0, 'k', 255 };
	const int n = depth < 3 ? 8 : 8 + seq::Pick(2);
	size_t counts[3];
	for (int i = 0; i < 3; ++i)
		counts[i] = Counts[seq::Pick(std::min(n, 8))];
	if (counts[0] + counts[1] + counts[2] == 0)
		return;
	for (int i = 0; i < 3; ++i)
		training.insert(training.end(), counts[i], letters[i]);
	if (n == 9)
		training.insert(training.end(), 70000, 'k');
	// training is slow, and consecutive executions mostly share it
	static Bytes lastTraining;
	static ICompressionDictionaryPtr last;
	if (!last || lastTraining != training)
	{
		last = Train<F>(training);
		lastTraining = training;
	}
	const ICompressionDictionaryPtr d = last;
	Bytes text;
	static const u8 L[] = { 0, 'k', 255, 'z' };
	for (int i = seq::Pick(depth + 1); i > 0; --i)
	{
		const u8 c = L[seq::Pick(4)];
		text.insert(text.end(), seq::Flip() ? 1 : 30, c);
	}
	RoundTrip(*d, text, 0, 0, 100000, name);
}

SEQ_SCENARIO(skewed0, .Q(2).T(3).Split(2)) { Skewed<F0>(depth, "0"); }
SEQ_SCENARIO(skewed0b, .Q(2).T(3).Split(2)) { Skewed<F0b>(depth, "0b"); }
SEQ_SCENARIO(skewed10b, .Q(2).T(3).Split(2)) { Skewed<F10b>(depth, "10b"); }
SEQ_SCENARIO(skewed310, .Q(2).T(3).Split(2)) { Skewed<F310>(depth, "310"); }

// several streams through one dictionary, and a dictionary compactified to every size
SEQ_SCENARIO(compact, .Q(4).T(6).Split(3))
{
	static const size_t Limits[] = { 100000, 4000, 3000, 2000, 1200, 1100 };
	Bytes training;
	for (int i = 0; i < depth; ++i)
	{
		static const char* const Parts[] = { "abcab", "aacbbb", "\xff\xff z", "q" };
		const Str p = Parts[seq::Pick(4)];
		training.insert(training.end(), p.begin(), p.end());
	}
	const size_t fin = Limits[seq::Pick(6)];
	const size_t high = seq::Flip() ? 1500 : 100000;
	const ICompressionDictionaryPtr d = Train<F310>(training, high / 3 * 2, high, fin);
	static const char* const Texts[] = { "", "abcabcab", "aacbbbq", "zz\xff\xff z", "bcabbq z" };
	for (int i = 0; i < 2; ++i)
	{
		const Str t = Texts[seq::Pick(5)];
		RoundTrip(*d, Bytes(t.begin(), t.end()), i ? 2 : 0, i ? 3 : 0, 100000, "310");
	}
}

// output larger than the internal buffers: every length around the buffer size, every way of taking the output
SEQ_SCENARIO(large, .Q(1).T(2).Split(3))
{
	Bytes training(1, 'a');
	const ICompressionDictionaryPtr d = Train<F0>(training);
	const int base = seq::Pick(depth == 1 ? 2 : 4);
	const size_t len = (base == 0 ? 990 : base == 1 ? 2010 : base == 2 ? 1500 : 4040) + seq::Pick(depth == 1 ? 12 : 24) * 2;
	const int kind = seq::Pick(3);
	Bytes text;
	for (size_t i = 0; i < len; ++i)
		text.push_back(kind == 0 ? u8(i * 7 + 3) : kind == 1 ? u8(i % 3 ? 'a' : 'x') : u8(255 - i % 2));
	const int cmode = seq::Pick(6), dmode = cmode == 0 ? seq::Pick(6) : 0;
	RoundTrip(*d, text, cmode, dmode, seq::Flip() ? 1 : 100000, "0");
}

// an empty dictionary knows no symbols; the empty text is still a text
SEQ_SCENARIO(empty, .Q(1).T(1))
{
	const ICompressionDictionaryPtr d = Train<F210>(Bytes());
	RoundTrip(*d, Bytes(), seq::Pick(6), seq::Pick(6), 1, "210");
}

// texts chosen so that the coder's interval keeps straddling its middle: the decision about many bits is postponed and they come at once
SEQ_SCENARIO(straddle, .Q(40).T(400).Split(1))
{
	const ICompressionDictionaryPtr d = Train<F0>(Bytes(1, 'a'));
	// order 0 statistics: each symbol has weight 1, and so has the end
	Bytes text;
	u64 low = 0, high = 0x7FFFFFFF; u64 pending = 0;
	const int n = seq::Pick(depth) * 10;
	const int avoid = seq::Pick(3);
	for (int i = 0; i < n; ++i)
	{
		const u64 range = (high - low + 1) / 257;
		u64 best = 128;
		for (u64 s = 0; s < 256; ++s)
			if (low + range * s < 0x40000000 && low + range * (s + 1) - 1 >= 0x40000000)
				best = s;
		text.push_back(u8(best));
		high = low + range * (best + 1) - 1;
		low = low + range * best;
		while ((low & 0x40000000) == (high & 0x40000000) || ((low & 0x20000000) && !(high & 0x20000000)))
		{
			if ((low & 0x40000000) != (high & 0x40000000)) { low &= 0x1FFFFFFF; high |= 0x20000000; ++pending; }
			else pending = 0;
			low = (low << 1) & 0x7FFFFFFF;
			high = ((high << 1) & 0x7FFFFFFF) | 1;
		}
	}
	SEQ_LOG("%d symbols, %llu bits pending", n, (unsigned long long)pending);
	if (avoid)
		text.push_back(avoid == 1 ? 0 : 255);
	RoundTrip(*d, text, 0, 0, 100000, "0");
}

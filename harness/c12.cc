// C12: the way input is delivered never changes what is parsed.
#include "val.h"
#include "texts.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sstream>
#include <memory>
using namespace libvariant;
using vp::Ctx;
const char *vp_rule = "the text has at least 8 bytes and was delivered in at least two pieces";

struct Out { bool ok = false; Val v; std::string why; };
template<class F> static Out run(F f) {
	Out o;
	try { o.v = from_variant(f()); o.ok = true; }
	catch (std::exception &e) { o.why = e.what(); }
	return o;
}
struct Faulty : std::runtime_error { Faulty() : std::runtime_error("injected read failure") {} };

// Pieces: how many bytes each read hands out, taken cyclically from a generated list.
struct Pieces {
	const std::string &t;
	std::vector<unsigned> sizes;
	size_t pos = 0, turn = 0, reads = 0;
	long fault = -1;         // reading the byte at this offset fails
	Pieces(const std::string &x) : t(x) {}
	size_t next(size_t max) {
		++reads;
		if (fault >= 0 && pos >= (size_t)fault) throw Faulty();
		size_t n = sizes[turn++ % sizes.size()];
		if (n > max) n = max;
		if (n > t.size() - pos) n = t.size() - pos;
		if (fault >= 0 && pos + n > (size_t)fault) n = fault - pos;
		return n;
	}
};
class StreamIn : public ParserStreamInput {
public:
	Pieces p;
	StreamIn(const Pieces &x, unsigned buf) : ParserStreamInput(buf), p(x) {}
	unsigned Read(void *ptr, unsigned len) {
		size_t n = p.next(len);
		if (n) memcpy(ptr, p.t.data() + p.pos, n);
		p.pos += n;
		return n;
	}
};
// Hands out a private copy of each window, so stale pointers and overreads are seen.
class WindowIn : public ParserInput {
public:
	Pieces p;
	bool honour;             // give at least what was asked for
	std::unique_ptr<char[]> win;
	size_t have = 0;         // bytes available from pos
	WindowIn(const Pieces &x, bool h) : p(x), honour(h) {}
	const void *GetPtr(unsigned &len) {
		size_t left = p.t.size() - p.pos, n = have;
		size_t want = honour && len > 0 ? len : 1;
		if (n == 0 || n < want) {
			size_t base = p.pos;
			do {
				size_t at = p.pos;
				p.pos = base + n;
				size_t k;
				try { k = p.next((size_t)-1 >> 1); } catch (...) { p.pos = at; throw; }
				p.pos = at;
				if (k == 0 && n == left) break;
				n += k;
				if (k == 0) break;
			} while (n < want);
		}
		have = n;
		len = n;
		if (n == 0) { win.reset(); return 0; }
		win.reset(new char[n]);
		memcpy(win.get(), p.t.data() + p.pos, n);
		return win.get();
	}
	void Release(unsigned len) {
		if (len > have) vp::fail(vp::fmt("released %u bytes, only %zu were handed out", len, have));
		have -= len;
		p.pos += len;
	}
};
class Buf : public std::streambuf {
public:
	Pieces p;
	std::vector<char> b;
	Buf(const Pieces &x) : p(x) {}
	int_type underflow() {
		size_t n = p.next((size_t)-1 >> 1);
		if (n == 0) return traits_type::eof();
		b.assign(p.t.begin() + p.pos, p.t.begin() + p.pos + n);
		p.pos += n;
		setg(&b[0], &b[0], &b[0] + n);
		return traits_type::to_int_type(b[0]);
	}
};
static ssize_t cookie_read(void *ck, char *buf, size_t size) {
	Pieces *p = (Pieces *)ck;
	try {
		size_t n = p->next(size);
		if (n) memcpy(buf, p->t.data() + p->pos, n);
		p->pos += n;
		return n;
	} catch (Faulty &) { static const int e[] = {EIO, EISDIR, EACCES, ENXIO}; errno = e[p->pos % 4]; return -1; }
}
static FILE *open_pieces(Pieces *p, bool unbuffered) {
	cookie_io_functions_t io = {cookie_read, 0, 0, 0};
	FILE *f = fopencookie(p, "r", io);
	if (f && unbuffered) setvbuf(f, 0, _IONBF, 0);
	return f;
}
static Variant parse(shared_ptr<ParserInput> in, SerializeType f) {
	Parser p = f == SERIALIZE_GUESS ? CreateParserGuess(in) : CreateParser(in, f);
	return ParseVariant(p);
}
// the functions named after the format
template<class A> static Variant named_file(A a, SerializeType t) {
	switch (t) {
	case SERIALIZE_JSON: return DeserializeJSONFile(a);
	case SERIALIZE_YAML: return DeserializeYAMLFile(a);
	case SERIALIZE_XMLPLIST: return DeserializeXMLPLISTFile(a);
	case SERIALIZE_BUNDLEHDR: return DeserializeBundleHdrFile(a);
	default: return DeserializeGuessFile(a);
	}
}
template<class... A> static Variant named_text(SerializeType t, A... a) {
	switch (t) {
	case SERIALIZE_JSON: return DeserializeJSON(a...);
	case SERIALIZE_YAML: return DeserializeYAML(a...);
	case SERIALIZE_XMLPLIST: return DeserializeXMLPLIST(a...);
	case SERIALIZE_BUNDLEHDR: return DeserializeBundleHdr(a...);
	default: return DeserializeGuess(a...);
	}
}
static Variant from_file(FILE *f, SerializeType t, bool named) { return named || t == SERIALIZE_GUESS ? named_file(f, t) : DeserializeFile(f, t); }
static Variant from_buf(std::streambuf *f, SerializeType t, bool named) { return named || t == SERIALIZE_GUESS ? named_file(f, t) : DeserializeFile(f, t); }

void vp_case(Ctx &c) {
	static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR, SERIALIZE_GUESS};
	SerializeType f = fs[c.pick(5)];
	std::string t = gen_format_text(c, f, true);
	bool damaged = c.chance(1, 3);
	if (damaged) do damage_text(c, t, f); while (c.chance(1, 3));
	c.note("format %s, text %s", format_name(f), vp::quote(t, 3000).c_str());
	c.label(format_name(f));
	if (t.size() > 8192) c.label("larger than 8 KiB");
	// reference: an exactly sized memory block
	std::unique_ptr<char[]> blk(new char[t.size() ? t.size() : 1]);
	memcpy(blk.get(), t.data(), t.size());
	Out ref = run([&] { return f == SERIALIZE_GUESS ? DeserializeGuess((const void *)blk.get(), t.size()) : Deserialize((const void *)blk.get(), t.size(), f); });
	c.note("reference %s", ref.ok ? val_str(ref.v).c_str() : ref.why.c_str());
	c.label(ref.ok ? "value" : "error");
	// is this what reading as little as possible gives?
	auto first_document = [&](const Out &o) {
		Pieces one(t);
		one.sizes.push_back(1);
		shared_ptr<ParserInput> s(new WindowIn(one, f == SERIALIZE_BUNDLEHDR));
		SerializeType g = f;
		if (f == SERIALIZE_GUESS) {
			size_t k = t.find_first_not_of(" \t\n\v\f\r");
			g = k != std::string::npos && t[k] == '<' ? SERIALIZE_XMLPLIST : SERIALIZE_YAML;
		}
		Out b = run([&] { return parse(s, g); });
		return b.ok && val_same(b.v, o.v);
	};
	// XML: is a proper beginning of the text the whole document?
	auto document_prefix = [&](const Out &o) {
		for (size_t k = t.size(); k-- > 0; ) {
			if (t[k] != '>') continue;
			Out b = run([&] { return Deserialize(t.data(), (unsigned)k + 1, SERIALIZE_XMLPLIST); });
			if (b.ok) return val_same(b.v, o.v);
		}
		return false;
	};
	bool xml = f == SERIALIZE_XMLPLIST || (f == SERIALIZE_GUESS && t.find_first_not_of(" \t\n\v\f\r") != std::string::npos && t[t.find_first_not_of(" \t\n\v\f\r")] == '<');
	// rest: the source still held unread bytes when the parse ended
	auto same = [&](const char *how, const Out &o, bool rest = false) {
		c.evals(1);
		// what follows the first document need not be looked at, and what was not read cannot be rejected
		if (!ref.ok && o.ok && (xml ? document_prefix(o) : rest && first_document(o))) { c.label("rest not read"); return; }
		VP_CHECK(ref.ok == o.ok, "%s text %s read from memory gives %s, read from %s gives %s", format_name(f), vp::quote(t, 1500).c_str(),
				ref.ok ? val_str(ref.v).c_str() : ("error " + ref.why).c_str(), how, o.ok ? val_str(o.v).c_str() : ("error " + o.why).c_str());
		VP_CHECK(!ref.ok || val_same(ref.v, o.v), "%s text %s read from memory gives %s, read from %s gives %s", format_name(f), vp::quote(t, 1500).c_str(), val_str(ref.v).c_str(), how, val_str(o.v).c_str());
	};
	Pieces base(t);
	unsigned ns = 1 + c.pick(5);
	bool tiny = true;
	for (unsigned i = 0; i < ns; ++i) {
		static const unsigned sz[] = {100000, 1, 2, 3, 4, 5, 7, 16, 100, 511, 512, 4095, 4096, 8191, 8192, 8193, 20000};
		unsigned s = c.coin() ? sz[c.pick(17)] : 1 + c.pick(t.size() + 4);
		base.sizes.push_back(s);
		if (s > 64) tiny = false;
	}
	if (tiny && t.size() > 20000) base.sizes.push_back(3000);
	std::string sizes;
	for (unsigned s : base.sizes) sizes += vp::fmt(" %u", s);
	c.note("piece sizes%s", sizes.c_str());
	unsigned how = c.pick(8);
	bool named = c.coin();
	bool fault = c.chance(1, 4);
	if (fault && how >= 3) {
		base.fault = c.pick(t.size() + 1);
		c.note("read failure at %ld", base.fault);
		c.label("read failure");
	}
	Out o;
	size_t reads = 1;
	bool rest = false;
	const char *name = "?";
	switch (how) {
	case 0: name = "string"; o = run([&] { return f == SERIALIZE_GUESS ? DeserializeGuess(t) : Deserialize(t, f); }); same("a string object", o);
		o = run([&] { return named_text<const std::string &>(f, t); }); same("a string object by the function named after the format", o);
		o = run([&] { return named_text<const void *, unsigned>(f, blk.get(), t.size()); }); same("memory by the function named after the format", o);
		name = "string input"; o = run([&] { return parse(CreateParserInput(t), f); }); break;
	case 1: if (t.find('\0') != std::string::npos) { c.label("has NUL"); return; }
		name = "C string"; o = run([&] { return f == SERIALIZE_GUESS ? DeserializeGuess(t.c_str()) : Deserialize(t.c_str(), f); }); same("a C string", o);
		o = run([&] { return named_text(f, t.c_str()); }); same("a C string by the function named after the format", o);
		name = "C string input"; o = run([&] { return parse(CreateParserInput(t.c_str()), f); }); break;
	case 2: {
		std::string fn = vp::scratch() + "/in.txt";
		if (c.chance(1, 8)) {                            // nothing can be read there
			bool dir = c.coin();
			std::string bad = dir ? vp::scratch() : vp::scratch() + "/nowhere.txt";
			o = run([&] { return f == SERIALIZE_GUESS ? DeserializeGuessFile(bad.c_str()) : DeserializeFile(bad.c_str(), f); });
			VP_CHECK(!o.ok, "reading %s gave a value", dir ? "a directory" : "a missing file");
			o = run([&] { return named_file(bad.c_str(), f); });
			VP_CHECK(!o.ok, "reading %s gave a value", dir ? "a directory" : "a missing file");
		}
		FILE *w = fopen(fn.c_str(), "w");
		if (!w) throw vp::Discard();
		fwrite(t.data(), 1, t.size(), w);
		fclose(w);
		name = "named file";
		o = run([&] { return f == SERIALIZE_GUESS ? DeserializeGuessFile(fn.c_str()) : DeserializeFile(fn.c_str(), f); });
		rest = t.size() > 4096;
		same(name, o, rest);
		o = run([&] { return named_file(fn.c_str(), f); });
		same("named file by the function named after the format", o, rest);
		name = "open file";
		FILE *r = fopen(fn.c_str(), "r");
		if (!r) throw vp::Discard();
		o = run([&] { return from_file(r, f, named); });
		fclose(r);
		unlink(fn.c_str());
		break;
	}
	case 3: { name = "FILE with short reads"; Pieces p = base; FILE *r = open_pieces(&p, c.coin()); o = run([&] { return from_file(r, f, named); }); fclose(r); reads = p.reads; rest = p.pos < t.size(); break; }
	case 4: { name = "stream buffer"; Buf b(base); o = run([&] { return from_buf(&b, f, named); }); reads = b.p.reads; rest = b.p.pos < t.size(); break; }
	case 5: { name = "stream input"; static const unsigned bs[] = {8192, 1, 2, 3, 4, 16, 64, 4096, 10000}; shared_ptr<StreamIn> s(new StreamIn(base, bs[c.pick(9)])); o = run([&] { return parse(s, f); }); reads = s->p.reads; rest = s->p.pos < t.size(); break; }
	case 6: { name = "custom input giving what is asked for"; shared_ptr<WindowIn> s(new WindowIn(base, true)); o = run([&] { return parse(s, f); }); reads = s->p.reads; rest = s->p.pos < t.size(); break; }
	default: {
		if (f == SERIALIZE_BUNDLEHDR || f == SERIALIZE_GUESS) { name = "custom input giving what is asked for"; shared_ptr<WindowIn> s(new WindowIn(base, true)); o = run([&] { return parse(s, f); }); reads = s->p.reads; rest = s->p.pos < t.size(); }
		else { name = "custom input giving pieces"; shared_ptr<WindowIn> s(new WindowIn(base, false)); o = run([&] { return parse(s, f); }); reads = s->p.reads; rest = s->p.pos < t.size(); }
	}
	}
	c.label(name);
	if (c.chance(1, 6)) {
		// the input by itself: all bytes in order, and as many as were asked for
		Pieces p = base;
		p.fault = -1;
		Buf b(p);
		shared_ptr<ParserInput> in;
		FILE *r = 0;
		switch (c.pick(4)) {
		case 0: in = CreateParserInput(blk.get(), t.size()); break;
		case 1: in = CreateParserInputFile((std::streambuf *)&b); break;
		case 2: r = open_pieces(&p, c.coin()); in = CreateParserInputFile(r); break;
		default: in = shared_ptr<ParserInput>(new StreamIn(p, 1 + c.pick(100)));
		}
		size_t at = 0;
		while (at < t.size()) {
			unsigned want = c.chance(1, 3) ? 0 : c.pick(c.coin() ? 20 : 9000), len = want;
			const char *q = (const char *)in->GetPtr(len);
			VP_CHECK(q && len >= 1 && len <= t.size() - at && len >= std::min<size_t>(want, t.size() - at), "at byte %zu of %zu the input gave %u bytes for %u", at, t.size(), q ? len : 0, want);
			VP_CHECK(memcmp(q, t.data() + at, len) == 0, "at byte %zu the input gave %s, not %s", at, vp::quote(std::string(q, len), 300).c_str(), vp::quote(t.substr(at, len), 300).c_str());
			unsigned drop = c.chance(1, 3) ? len : std::min<unsigned>(len, 1 + c.pick(c.coin() ? 10 : 5000));
			if (t.size() > 5000 && drop < 1000) drop = std::min(len, 1000u);
			in->Release(drop);
			at += drop;
		}
		unsigned len = c.pick(3);
		const void *q = in->GetPtr(len);
		VP_CHECK(!q || len == 0, "the input gave %u bytes after its end", len);
		if (r) fclose(r);
		c.label("input by itself");
		c.evals(1);
	}
	if (base.fault >= 0) {
		// an error, or (when the failing part was not needed) the whole value
		c.evals(1);
		VP_CHECK(!o.ok || (ref.ok ? val_same(ref.v, o.v) : xml ? document_prefix(o) : first_document(o)), "%s text %s with a read failure at %ld gives %s from a %s instead of an error (whole text: %s)", format_name(f), vp::quote(t, 1500).c_str(), base.fault,
				val_str(o.v).c_str(), name, ref.ok ? val_str(ref.v).c_str() : ("error " + ref.why).c_str());
		if (!o.ok) c.label("failure reported");
	} else same(name, o, rest);
	if (t.size() >= 8 && reads >= 2) c.nontrivial(vp::hashmix(vp::hash64(t), vp::hash64(sizes) + how * 7 + base.fault));
}

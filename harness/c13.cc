// C13: every output sink receives the same bytes and failures are reported.
#include "val.h"
#include "texts.h"
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <Variant/Payload.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sstream>
#include <memory>
using namespace libvariant;
using vp::Ctx;
const char *vp_rule = "the output has at least 8 bytes and went to a sink other than the plain string";

struct SinkError : std::exception { const char *what() const noexcept { return "injected write failure"; } };
struct Sink {                        // accepts pieces, fails at a byte offset
	std::string got;
	std::vector<unsigned> sizes;
	size_t turn = 0, writes = 0;
	long fault = -1;
	bool flushfault = false, once = false;
	int kind = 0;                    // which exception
	[[noreturn]] void raise() {
		if (once) fault = -1;            // works again afterwards
		switch (kind) {
		case 1: throw std::length_error("injected write failure");
		case 2: throw SinkError();
		case 3: throw std::bad_alloc();
		default: throw std::runtime_error("injected write failure");
		}
	}
	bool dead() const { return fault >= 0 && got.size() >= (size_t)fault; }
	size_t take(const void *p, size_t n) {
		++writes;
		if (n == 0) return 0;
		size_t k = sizes[turn++ % sizes.size()];
		if (k > n) k = n;
		if (fault >= 0 && got.size() + k > (size_t)fault) k = fault - got.size();
		got.append((const char *)p, k);
		return k;
	}
};
class CustomOut : public EmitterOutput {
public:
	Sink *s;
	CustomOut(Sink *x) : s(x) {}
	unsigned Write(const void *p, unsigned n) { if (n && s->dead()) s->raise(); return s->take(p, n); }
	void Flush() { if (s->flushfault) s->raise(); }
	unsigned NumBytesWritten() const { return s->got.size(); }
};
class OutBuf : public std::streambuf {
public:
	Sink *s;
	bool throws;
	OutBuf(Sink *x, bool t) : s(x), throws(t) {}
	int_type overflow(int_type ch) {
		if (traits_type::eq_int_type(ch, traits_type::eof())) return 0;
		if (s->dead()) { if (throws) s->raise(); return traits_type::eof(); }
		char x = ch;
		unsigned save = s->sizes[s->turn % s->sizes.size()];
		(void)save;
		s->got += x;
		++s->writes;
		return ch;
	}
	std::streamsize xsputn(const char *p, std::streamsize n) {
		if (n && s->dead()) { if (throws) s->raise(); return 0; }
		return s->take(p, n);
	}
	int sync() { if (s->flushfault) { if (throws) s->raise(); return -1; } return 0; }
};
// holds back what it was given until its room is used up or it is synchronised
class HeldBuf : public std::streambuf {
public:
	Sink *s;
	std::vector<char> room;
	HeldBuf(Sink *x, size_t n) : s(x), room(n) { setp(&room[0], &room[0] + n); }
	int pass() {
		char *b = pbase(), *e = pptr();
		while (b != e) {
			if (s->dead()) { setp(&room[0], &room[0] + room.size()); return -1; }
			b += s->take(b, e - b);
		}
		setp(&room[0], &room[0] + room.size());
		return 0;
	}
	int_type overflow(int_type ch) {
		if (pass() < 0) return traits_type::eof();
		if (!traits_type::eq_int_type(ch, traits_type::eof())) { *pptr() = ch; pbump(1); }
		return traits_type::not_eof(ch);
	}
	int sync() { return pass(); }
};
static ssize_t ck_write(void *ck, const char *buf, size_t n) {
	Sink *s = (Sink *)ck;
	// stdio takes a short count for an error, so take all there is room for
	if (s->fault >= 0 && s->got.size() + n > (size_t)s->fault) { n = s->dead() ? 0 : s->fault - s->got.size(); errno = ENOSPC; }
	s->got.append(buf, n);
	return n;
}
static Variant cfg(const Variant &p) { return p; }
// the functions named after the format
template<class D> static void by_name(D d, const Variant &v, SerializeType f, bool pretty) {
	switch (f) {
	case SERIALIZE_JSON: if (pretty) SerializeJSON(d, v, true); else SerializeJSON(d, v); break;
	case SERIALIZE_YAML: SerializeYAML(d, v); break;
	case SERIALIZE_XMLPLIST: if (pretty) SerializeXMLPLIST(d, v, true); else SerializeXMLPLIST(d, v); break;
	default: SerializeBundleHdr(d, v);
	}
}
static unsigned by_name(void *b, unsigned n, const Variant &v, SerializeType f, bool pretty) {
	switch (f) {
	case SERIALIZE_JSON: return pretty ? SerializeJSON(b, n, v, true) : SerializeJSON(b, n, v);
	case SERIALIZE_YAML: return SerializeYAML(b, n, v);
	case SERIALIZE_XMLPLIST: return pretty ? SerializeXMLPLIST(b, n, v, true) : SerializeXMLPLIST(b, n, v);
	default: return SerializeBundleHdr(b, n, v);
	}
}
static std::string by_name(const Variant &v, SerializeType f, bool pretty) {
	switch (f) {
	case SERIALIZE_JSON: return pretty ? SerializeJSON(v, true) : SerializeJSON(v);
	case SERIALIZE_YAML: return SerializeYAML(v);
	case SERIALIZE_XMLPLIST: return pretty ? SerializeXMLPLIST(v, true) : SerializeXMLPLIST(v);
	default: return SerializeBundleHdr(v);
	}
}
static bool named, named_pretty, payload;
template<class D> static void ser(D d, const Variant &v, SerializeType f, const Variant &p) {
	if (payload) SerializeWithPayload(d, v, f, p);
	else if (named) by_name(d, v, f, named_pretty);
	else if (p.IsNull()) Serialize(d, v, f); else Serialize(d, v, f, cfg(p));
}
static void emit(shared_ptr<EmitterOutput> o, const Variant &v, SerializeType f, const Variant &p) {
	if (payload) { SerializeWithPayload(o, v, f, p); return; }
	Emitter e = CreateEmitter(o, f, p);
	e << v;
	e.Close();
}
static void to_custom(Sink *s, const Variant &v, SerializeType f, const Variant &p) {
	emit(shared_ptr<EmitterOutput>(new CustomOut(s)), v, f, p);
}
static std::string slurp(const std::string &fn) {
	std::string r;
	FILE *f = fopen(fn.c_str(), "r");
	if (!f) return "<missing>";
	char b[4096];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	fclose(f);
	return r;
}
void vp_case(Ctx &c) {
	static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	SerializeType f = fs[c.pick(4)];
	Val v = gen_val_for(c, f);
	if (f != SERIALIZE_BUNDLEHDR && c.chance(1, 12)) {       // larger than every internal buffer
		Val big = Val::list();
		unsigned n = 1 + c.pick(60);
		std::string fill(100 + c.pick(900), 'f');
		for (unsigned i = 0; i < n; ++i) big.l.push_back(i % 9 == 4 ? v : Val::str(fill + vp::fmt("%u", i)));
		v = big;
	}
	Variant p = gen_params(c, f);
	payload = c.chance(1, 6);
	if (payload) {                   // followed by the bytes of a blob
		static const char bytes[] = "\0\n\xff\0payload";
		std::string data;
		size_t n = c.coin() ? c.pick(40) : c.pick(9000);
		while (data.size() < n) data += bytes[data.size() % (1 + c.pick(10))];
		if (f == SERIALIZE_BUNDLEHDR) v.m["payload.data"] = Val::blob(data);
		else {
			Val m = Val::map();
			m.m["v"] = v;
			m.m["payload"] = Val::map();
			m.m["payload"].m["data"] = Val::blob(data);
			v = m;
		}
		c.label("with payload");
	}
	named = !payload && c.chance(1, 4);
	if (named) {
		named_pretty = c.coin();
		p = VariantDefines::NullType;
		if (f == SERIALIZE_JSON || f == SERIALIZE_XMLPLIST) { p = VariantDefines::MapType; p["pretty"] = named_pretty; }
		c.label("by the name of the format");
	}
	c.note("format %s, value %s", format_name(f), val_str(v).c_str());
	c.note("params %s", p.IsNull() ? "none" : val_str(from_variant(p)).c_str());
	Variant in = to_variant(v);
	std::string ref = payload ? SerializeWithPayload(in, f, p) : p.IsNull() ? Serialize(in, f) : Serialize(in, f, p);
	c.note("text %s", vp::quote(ref, 2000).c_str());
	c.label(format_name(f));
	if (named) { std::string t = by_name(in, f, named_pretty); VP_CHECK(t == ref, "the function named after %s gives %s, not %s", format_name(f), vp::quote(t, 1000).c_str(), vp::quote(ref, 1000).c_str()); }
	Sink s;
	unsigned ns = 1 + c.pick(4);
	bool tiny = true;
	for (unsigned i = 0; i < ns; ++i) {
		static const unsigned sz[] = {1000000, 1, 2, 3, 7, 100, 127, 128, 129, 511, 512, 4096};
		unsigned k = c.coin() ? sz[c.pick(12)] : 1 + c.pick(ref.size() + 4);
		s.sizes.push_back(k);
		if (k > 64) tiny = false;
	}
	if (tiny && ref.size() > 20000) s.sizes.push_back(3000);
	unsigned how = c.pick(8);
	bool want_fault = c.coin();
	std::string name;
	bool expect_fail = false, ok = false, compare = true;
	std::string why;
	auto attempt = [&](const std::function<void()> &fn) {
		ok = false;
		try { fn(); ok = true; } catch (std::exception &e) { why = e.what(); }
	};
	std::string got;
	switch (how) {
	case 0: case 1: {        // memory buffer
		size_t n;
		switch (c.pick(4)) {
		case 0: n = ref.size(); break;
		case 1: n = ref.size() + 1 + c.pick(600); break;
		default: n = ref.size() ? c.pick(ref.size()) : 0; break;
		}
		if (n == 0 && ref.empty()) n = 1;
		name = vp::fmt("memory buffer of %zu bytes (%zu needed)", n, ref.size());
		expect_fail = n < ref.size();
		c.label(expect_fail ? "memory too small" : "memory large enough");
		std::unique_ptr<char[]> b(new char[n]);
		unsigned len = 0;
		attempt([&] { len = payload ? SerializeWithPayload(b.get(), (unsigned)n, in, f, p) : named ? by_name(b.get(), (unsigned)n, in, f, named_pretty) : p.IsNull() ? Serialize(b.get(), (unsigned)n, in, f) : Serialize(b.get(), (unsigned)n, in, f, p); });
		if (ok) { VP_CHECK(len <= n, "%s: reported length %u", name.c_str(), len); got.assign(b.get(), len); }
		// the sink directly, without asking for the length
		if (c.coin()) {
			std::unique_ptr<char[]> b2(new char[n]);
			bool ok2 = false;
			try { shared_ptr<EmitterOutput> o = CreateEmitterOutput(b2.get(), (unsigned)n); emit(o, in, f, p); ok2 = true;
				VP_CHECK(o->NumBytesWritten() == ref.size(), "%s: the sink counted %u bytes", name.c_str(), o->NumBytesWritten()); }
			catch (std::exception &) {}
			VP_CHECK(ok2 == !expect_fail && (!ok2 || memcmp(b2.get(), ref.data(), ref.size()) == 0), "%s without a length pointer: %s", name.c_str(), ok2 ? "success" : "error");
		}
		break;
	}
	case 2: {                // named file
		std::string fn = vp::scratch() + "/out.txt";
		name = "named file";
		if (c.chance(1, 8)) {                            // nothing can be written there
			std::string bad = c.coin() ? vp::scratch() : vp::scratch() + "/nowhere/out.txt";
			attempt([&] { ser<const std::string &>(bad, in, f, p); });
			VP_CHECK(!ok, "%s output to %s succeeded", format_name(f), bad == vp::scratch() ? "a directory" : "a missing directory");
		}
		if (c.coin()) {                                  // replaces what was there
			FILE *fp = fopen(fn.c_str(), "w");
			if (!fp) throw vp::Discard();
			std::string old(c.pick(2 * ref.size() + 10), 'o');
			fwrite(old.data(), 1, old.size(), fp);
			fclose(fp);
		}
		attempt([&] { ser<const std::string &>(fn, in, f, p); });
		got = slurp(fn);
		unlink(fn.c_str());
		break;
	}
	case 3:                  // FILE
		if (want_fault) { s.fault = c.pick(ref.size() + 3); expect_fail = (size_t)s.fault < ref.size(); }
		name = "FILE";
		{
			cookie_io_functions_t io = {0, ck_write, 0, 0};
			FILE *fp = fopencookie(&s, "w", io);
			if (!fp) throw vp::Discard();
			switch (c.pick(3)) { case 0: setvbuf(fp, 0, _IONBF, 0); break; case 1: setvbuf(fp, 0, _IOFBF, 16 + c.pick(5000)); break; default: break; }
			attempt([&] { ser(fp, in, f, p); });
			fclose(fp);
		}
		got = s.got;
		break;
	case 4:                  // stream buffer
		if (want_fault) { s.fault = c.pick(ref.size() + 3); expect_fail = (size_t)s.fault < ref.size(); s.kind = c.pick(4); }
		name = "stream buffer";
		{
			if (c.chance(1, 3)) {
				HeldBuf b(&s, 1 + c.pick(c.coin() ? 40 : 5000));
				name = "stream buffer that holds bytes back";
				attempt([&] { ser((std::streambuf *)&b, in, f, p); });
			} else {
				OutBuf b(&s, c.coin());
				if (c.coin()) attempt([&] { ser((std::streambuf *)&b, in, f, p); });
				else {
					shared_ptr<EmitterOutput> o = CreateEmitterOutput((std::streambuf *)&b);
					attempt([&] { emit(o, in, f, p); });
					VP_CHECK(o->NumBytesWritten() == s.got.size(), "%s: the sink counted %u bytes, %zu were taken", name.c_str(), o->NumBytesWritten(), s.got.size());
				}
			}
		}
		got = s.got;
		break;
	case 5: {                // the real standard classes
		name = "string stream and temporary file";
		std::stringbuf sb;
		attempt([&] { ser((std::streambuf *)&sb, in, f, p); });
		VP_CHECK(ok && sb.str() == ref, "string stream received %s, not %s", vp::quote(sb.str(), 1000).c_str(), vp::quote(ref, 1000).c_str());
		std::string fn = vp::scratch() + "/out2.txt";
		FILE *fp = fopen(fn.c_str(), "w+");
		if (!fp) throw vp::Discard();
		if (c.coin()) attempt([&] { ser(fp, in, f, p); });
		else {
			shared_ptr<EmitterOutput> o = CreateEmitterOutput(fp);
			attempt([&] { emit(o, in, f, p); });
			VP_CHECK(o->NumBytesWritten() == ref.size(), "%s: the sink counted %u bytes of %zu", name.c_str(), o->NumBytesWritten(), ref.size());
		}
		fclose(fp);
		got = slurp(fn);
		unlink(fn.c_str());
		break;
	}
	default:                 // custom sink
		if (want_fault) { s.fault = c.pick(ref.size() + 3); expect_fail = (size_t)s.fault < ref.size(); s.kind = c.pick(4);
			if (c.chance(1, 10)) { s.fault = -1; s.flushfault = true; compare = false; }
			else s.once = c.chance(1, 3); }
		name = s.once ? "custom sink that fails only once" : "custom sink";
		attempt([&] { to_custom(&s, in, f, p); });
		got = s.got;
		if (s.fault >= 0 && !s.once && c.chance(1, 6)) {
			Sink s0 = s;
			s0.got.clear(); s0.turn = 0;
			vp::leak_check([&] { Sink s2 = s0; s2.got.reserve(ref.size() + 1); try { to_custom(&s2, in, f, p); } catch (std::exception &) {} }, "serialising to a failing sink");
			c.label("leak checked");
		}
	}
	std::string sizes;
	for (unsigned k : s.sizes) sizes += vp::fmt(" %u", k);
	if (s.once) name += ",";
	if (how == 3 || how == 4 || how >= 6) name += vp::fmt(" taking%s bytes%s", sizes.c_str(), s.fault >= 0 ? vp::fmt(", failing at %ld of %zu", s.fault, ref.size()).c_str() : "");
	c.note("sink %s", name.c_str());
	c.label(how <= 1 ? "memory" : how == 2 ? "named file" : how == 3 ? "FILE" : how == 4 ? "stream buffer" : how == 5 ? "standard classes" : "custom sink");
	c.evals(1);
	if (expect_fail) {
		c.label("failure injected");
		VP_CHECK(!ok, "%s output to a %s succeeded; value %s", format_name(f), name.c_str(), val_str(v).c_str());
		if (how > 1) VP_CHECK(ref.compare(0, got.size(), got) == 0, "%s output to a %s: the accepted bytes %s are not a beginning of %s", format_name(f), name.c_str(), vp::quote(got, 1000).c_str(), vp::quote(ref, 1000).c_str());
	} else if (compare) {
		VP_CHECK(ok, "%s output to a %s failed (%s); value %s", format_name(f), name.c_str(), why.c_str(), val_str(v).c_str());
		VP_CHECK(got == ref, "%s output to a %s is %s, not %s", format_name(f), name.c_str(), vp::quote(got, 1500).c_str(), vp::quote(ref, 1500).c_str());
	} else VP_CHECK(!ok, "%s output to a sink whose flush fails succeeded", format_name(f));
	VP_CHECK(val_same(from_variant(in), v), "serialising changed the variant from %s to %s", val_str(v).c_str(), val_str(from_variant(in)).c_str());
	if (ref.size() >= 8) c.nontrivial(vp::hashmix(vp::hash64(ref), vp::hash64(name)));
}

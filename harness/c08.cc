// C08: the JSON parser accepts exactly JSON and yields the right values.
#include "val.h"
#include "refjson.h"
#include <math.h>
#include <string.h>
using namespace libvariant;
using vp::Ctx;
const char *vp_rule = "the text contains a container with content, or was damaged by at least one edit";

static void sp(Ctx &c, std::string &t) {
	while (c.chance(1, 5)) {
		switch (c.weighted({6, 2, 1, 1, 2})) {
		case 0: t += ' '; break;
		case 1: t += '\n'; break;
		case 2: t += '\t'; break;
		case 3: t += '\r'; break;
		default: {
			static const char *cm[] = {"/**/", "/* c */", "/***/", "/* \"x\" */", "/*,]}*/", "/* / * */", "/****/", "/*\n*/", "/* \xc3\xa9 */", "/*//*/", "/* \\ */", "/*1*/", "/* * */"};
			t += cm[c.pick(sizeof(cm) / sizeof(*cm))];
		}
		}
	}
}
static void digits(Ctx &c, std::string &t, unsigned avg) {
	do t += (char)('0' + c.pick(10)); while (c.more(avg));
}
static void number(Ctx &c, std::string &t) {
	switch (c.weighted({6, 4, 3})) {
	case 0: t += vp::fmt("%lld", (long long)gen_int(c)); return;
	case 1: t += vp::fmt("%llu", (unsigned long long)gen_uint(c)); return;
	default: break;
	}
	if (c.coin()) t += '-';
	if (c.coin()) t += '0'; else { t += (char)('1' + c.pick(9)); if (c.coin()) digits(c, t, c.chance(1, 5) ? 30 : 6); }
	if (c.coin()) { t += '.'; digits(c, t, c.chance(1, 8) ? 40 : 5); }
	if (c.coin()) {
		t += c.coin() ? 'E' : 'e';
		switch (c.pick(3)) { case 1: t += '+'; break; case 2: t += '-'; break; }
		if (c.chance(1, 6)) t += "00";
		t += (char)('0' + c.pick(10));
		if (c.coin()) t += (char)('0' + c.pick(10));
		if (c.chance(1, 8)) t += (char)('0' + c.pick(10));
	}
}
static void put_u(Ctx &c, std::string &t, unsigned v) {
	char b[8];
	switch (c.pick(3)) {
	case 0: snprintf(b, sizeof b, "\\u%04x", v); break;
	case 1: snprintf(b, sizeof b, "\\u%04X", v); break;
	default: snprintf(b, sizeof b, "\\u%04x", v); for (char *p = b + 2; *p; ++p) if (c.coin()) *p = toupper(*p); break;
	}
	t += b;
}
static void string(Ctx &c, std::string &t, bool longer) {
	t += '"';
	unsigned guard = 0;
	unsigned avg = longer && c.chance(1, 30) ? 3000 : 5;
	if (avg == 3000) { unsigned n = 3400 + c.pick(200); t.append(n, 'q'); avg = 40; }
	while (guard++ < 400 && c.more(avg)) {
		switch (c.weighted({8, 3, 4, 3, 3})) {
		case 0: t += (char)('a' + c.pick(26)); break;
		case 1: { static const char *e[] = {"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"}; t += e[c.pick(8)]; break; }
		case 2: {
			uint32_t v;
			switch (c.pick(5)) {
			case 0: v = 0x20 + c.pick(0x5f); break;
			case 1: v = c.pick(0x20); break;
			case 2: v = 0x80 + c.pick(0x780); break;
			case 3: { static const uint32_t ed[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0xfffe, 0xfeff, 0xfffd, 0x1000, 0xabcd, 0xcdef, 0x2028, 0x85}; v = ed[c.pick(16)]; break; }
			default: v = 0x800 + c.pick(0xd000); break;
			}
			put_u(c, t, v);
			break;
		}
		case 3: {
			uint32_t v;
			static const uint32_t ed[] = {0x10000, 0x10ffff, 0x103ff, 0x10400, 0xfffff, 0x100000, 0x1f600};
			v = c.coin() ? ed[c.pick(7)] : 0x10000 + c.pick(0x100000);
			if (c.coin()) utf8_put(t, v);
			else { v -= 0x10000; put_u(c, t, 0xd800 + (v >> 10)); put_u(c, t, 0xdc00 + (v & 0x3ff)); }
			break;
		}
		default: {
			uint32_t v;
			switch (c.pick(4)) {
			case 0: v = 0x20 + c.pick(0x5f); if (v == '"' || v == '\\') v = '/'; break;
			case 1: v = 0x7f + c.pick(0x700); break;
			case 2: v = 0x800 + c.pick(0xd000); break;
			default: v = 0xe000 + c.pick(0x2000); break;
			}
			utf8_put(t, v);
		}
		}
	}
	t += '"';
}
static void value(Ctx &c, std::string &t, unsigned depth) {
	unsigned k = depth == 0 ? 4 + c.pick(2) : depth > 6 ? c.weighted({3, 6, 5}) : c.weighted({3, 6, 5, 0, 3, 3});
	switch (k) {
	case 0: { static const char *l[] = {"null", "true", "false"}; t += l[c.pick(3)]; break; }
	case 1: number(c, t); break;
	case 2: string(c, t, true); break;
	case 4: {
		t += '['; sp(c, t);
		unsigned n = 0;
		while (n < 30 && c.more(3)) { if (n++) { t += ','; sp(c, t); } value(c, t, depth + 1); sp(c, t); }
		t += ']';
		break;
	}
	default: {
		t += '{'; sp(c, t);
		unsigned n = 0;
		while (n < 30 && c.more(3)) {
			if (n++) { t += ','; sp(c, t); }
			if (c.coin()) t += vp::fmt("\"%c%u\"", (int)('a' + c.pick(26)), n); else string(c, t, false);
			sp(c, t); t += ':'; sp(c, t);
			value(c, t, depth + 1); sp(c, t);
		}
		t += '}';
	}
	}
}
static void damage(Ctx &c, std::string &t) {
	static const char *frag[] = {",", ":", "[", "]", "{", "}", "\"", "\\", "/", "*", "-", "+", ".", "e", "0", "1", "t", "n", "null", "true", "nan", "Infinity", "-Infinity",
		"'", "/*", "*/", "//", "\x01", "\x7f", "\n", "\t", " ", "x", "u", "\\u12", "\\ud800", "\\x", "\\0", "0x1", "01", "1.", ".5", "1e", "1e+", "--1", "+1", "tru", "nul", "fals", "True", "\v", "\f", "\xa0", "#", "\xef\xbb\xbf", ";", "=",
		"/**/", "\"a\"", "[]", "{}", "1 2", ",,", "\r", "0e", "-", "00"};
	size_t at = c.pick(t.size() + 1);
	switch (c.weighted({3, 4, 3, 2, 2, 1})) {
	case 0: if (at < t.size()) t.erase(at, 1); break;
	case 1: t.insert(at, frag[c.pick(sizeof(frag) / sizeof(*frag))]); break;
	case 2: if (at < t.size()) t[at] = frag[c.pick(sizeof(frag) / sizeof(*frag))][0]; break;
	case 3: if (at < t.size()) { size_t n = 1 + c.pick(6); t.erase(at, n); } break;
	case 4: t.resize(at); break;
	default: if (at < t.size()) { std::string s = t.substr(at, 1 + c.pick(8)); t.insert(c.pick(t.size()), s); } break;
	}
}
static bool same_value(const Val &a, const Val &b) {
	if (a.t == Val::Float || b.t == Val::Float) return a.t == b.t && (val_same(a, b) || (a.d == 0 && b.d == 0));
	if (a.isnum() && b.isnum()) return num_cmp(a, b) == 0;
	if (a.t != b.t) return false;
	if (a.t == Val::List) {
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!same_value(a.l[i], b.l[i])) return false;
		return true;
	}
	if (a.t == Val::Map) {
		if (a.m.size() != b.m.size()) return false;
		for (auto &x : a.m) { auto y = b.m.find(x.first); if (y == b.m.end() || !same_value(x.second, y->second)) return false; }
		return true;
	}
	return val_same(a, b);
}
static bool lib(const std::string &t, Val &v, std::string &why) {
	try { Variant r = Deserialize(t, SERIALIZE_JSON); v = from_variant(r); return true; }
	catch (std::exception &e) { why = e.what(); return false; }
}
static void judge(Ctx &c, const std::string &t) {
	RefJson r;
	r.comments = true; r.lenient = true;
	bool ok = r.parse(t);
	c.evals(1);
	if (r.lone_surrogate || r.bad_utf8 || r.odd_comment || r.dot_end || t.compare(0, 3, "\xef\xbb\xbf") == 0) {
		Val v; std::string why; lib(t, v, why);      // must still not crash
		c.label("verdict open");
		return;
	}
	Val v; std::string why;
	bool got = lib(t, v, why);
	if (!ok) {
		VP_CHECK(!got, "text that is not JSON (%s) was accepted as %s: %s", r.why.c_str(), val_str(v).c_str(), vp::quote(t, 2000).c_str());
		c.label("rejected");
		return;
	}
	VP_CHECK(got, "JSON text was rejected (%s): %s", why.c_str(), vp::quote(t, 2000).c_str());
	c.label("accepted");
	if (r.dupkey || r.huge || t.find("\\u0000BLOB") != std::string::npos) { c.label("value open"); return; }
	if (r.bigint) { c.label("big integer"); return; }
	VP_CHECK(same_value(r.value, v), "text %s parsed to %s, not %s; first difference %s", vp::quote(t, 2000).c_str(), val_str(v).c_str(), val_str(r.value).c_str(), val_diff(r.value, v).c_str());
}
void vp_case(Ctx &c) {
	std::string t;
	if (c.chance(1, 40)) {    // deep nesting, past the parser's fixed stack
		unsigned n = 100 + c.pick(400);
		std::string tail;
		for (unsigned i = 0; i < n; ++i) if (c.chance(1, 3)) { t += "{\"a\":"; tail = "}" + tail; } else { t += "["; tail = "]" + tail; }
		t += "1" + tail;
	} else if (c.chance(1, 300)) {   // long
		unsigned n = 1000 + c.pick(c.chance(1, 4) ? 150000 : 15000);
		switch (c.pick(5)) {
		case 0: t = std::string(n, ' ') + "["; value(c, t, 2); t += std::string(c.pick(n), '\n') + "]"; break;
		case 1: t = "["; for (unsigned i = 0; i < n / 4; ++i) t += vp::fmt("%u,", i % 100); value(c, t, 2); t += "]"; break;
		case 2: t = "{"; for (unsigned i = 0; i < n / 8; ++i) t += vp::fmt("\"k%u\":%u,", i, i % 10); t += "\"z\":"; value(c, t, 2); t += "}"; break;
		case 3: t = "[\"" + std::string(n, 'x') + "\\u00e9" + std::string(c.pick(100), 'y') + "\"]"; break;
		default: t = "[\""; for (unsigned i = 0; i < n / 6; ++i) t += "\\u0041"; t += "\"]";
		}
		c.label("long");
	} else {
		sp(c, t); value(c, t, 0);
	}
	size_t endp = t.size();
	if (c.chance(1, 6)) { static const char *tr[] = {" ", "\n", "x", "]", "[1]", ",", "\0", "//", "}", "\"", "null"}; t += tr[c.pick(11)]; }
	bool damaged = c.coin();
	unsigned nd = 0;
	if (damaged) do { damage(c, t); ++nd; } while (nd < 6 && c.chance(1, 3));
	c.note("text %s", vp::quote(t, 3000).c_str());
	if (nd || t.size() > 6) c.nontrivial(vp::hash64(t));
	c.label(damaged ? "damaged" : "well formed");
	judge(c, t);
	if (!damaged) {
		// every proper beginning of the document is not a document
		for (unsigned k = 0; k < 6 && endp > 0; ++k) {
			std::string cut = t.substr(0, c.pick(endp));
			c.note("cut to %zu", cut.size());
			judge(c, cut);
		}
		std::string w;
		sp(c, w);
		judge(c, w + t);
	}
}

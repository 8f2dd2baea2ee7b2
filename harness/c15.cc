// C15: scalar and format guessing.
#include "val.h"
#include "texts.h"
#include "refguess.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/GuessFormat.h>
#include <string.h>
#include <memory>
#include <algorithm>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "a scalar text of at least 2 characters, or a document of at least 4 bytes";

static bool wsp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static string trim(const string &s) {
	size_t b = 0, e = s.size();
	while (b < e && wsp(s[b])) ++b;
	while (e > b && wsp(s[e - 1])) --e;
	return s.substr(b, e - b);
}
// text that YAML reads as one plain scalar anywhere
static bool plain(const string &s) {
	if (s.empty() || s != trim(s) || s.compare(0, 3, "---") == 0 || s.compare(0, 3, "...") == 0 || s == "=" || s == "<<") return false;
	if (strchr("#%@`!&*|>?:'\"", s[0])) return false;
	if (s[0] == '-' && (s.size() == 1 || s[1] == ' ')) return false;
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char ch = s[i];
		if (ch < 32 || ch >= 127 || strchr(",[]{}:?#", ch)) return false;
	}
	return true;
}
static string text(Ctx &c) {
	switch (c.weighted({6, 1, 1})) {
	case 0: return gen_scalar_text(c);
	case 1: { string s; static const char al[] = "abcxyzNT019.+-~_ e"; do s += al[c.pick(sizeof(al) - 1)]; while (c.more(8)); return s; }
	default: { string a = gen_scalar_text(c); return c.coin() ? a + gen_scalar_text(c) : a + " " + gen_scalar_text(c); }
	}
}
static void scalars(Ctx &c) {
	string s = trim(text(c));
	if (s.empty()) s = "0";
	string pad = c.coin() ? "" : string(1 + c.pick(3), ' ');
	Val want = ref_guess(s);
	c.note("scalar %s, expected %s", vp::quote(s).c_str(), val_str(want).c_str());
	static const char *kinds[] = {"null", "bool", "int", "uint", "float", "string"};
	c.label(string("scalar ") + kinds[want.t <= Val::Str ? want.t : 0]);
	if (s.find_first_of("|#\n:") == string::npos) {
		Val b = from_variant(Deserialize("k:" + pad + s + pad + (c.coin() ? "\n" : ""), SERIALIZE_BUNDLEHDR)["k"]);
		VP_CHECK(guess_same(want, b), "bundle value %s read as %s, not %s", vp::quote(s).c_str(), val_str(b).c_str(), val_str(want).c_str());
		// white space around a word or number says nothing; a text may keep it
		string padl = c.chance(2, 3) ? "" : string(1 + c.pick(3), " \t"[c.pick(2)]), padr = c.chance(2, 3) ? "" : string(1 + c.pick(3), ' ');
		Val l = from_variant(Deserialize("k: x|" + padl + s + padr + "|y|\n", SERIALIZE_BUNDLEHDR)["k"][1]);
		if (want.t == Val::Str && l.t == Val::Str && !(padl + padr).empty()) l.s = trim(l.s);
		VP_CHECK(guess_same(want, l), "bundle list element %s read as %s, not %s", vp::quote(padl + s + padr).c_str(), val_str(l).c_str(), val_str(want).c_str());
	}
	if (plain(s)) {
		string y;
		Val got;
		unsigned where = c.pick(6);
		switch (where) {
		case 0: got = from_variant(Deserialize(y = pad + s + pad, SERIALIZE_YAML)); break;
		case 1: got = from_variant(Deserialize(y = "- a\n-" + pad + " " + s + pad + "\n- 1\n", SERIALIZE_YAML)[1]); break;
		case 2: got = from_variant(Deserialize(y = "a: 1\nk: " + pad + s + pad + "\nz: 2\n", SERIALIZE_YAML)["k"]); break;
		case 3: got = from_variant(Deserialize(y = "[a," + pad + s + pad + ", 3]", SERIALIZE_YAML)[1]); break;
		case 4: got = from_variant(Deserialize(y = "{k: " + s + pad + ", z: 3}", SERIALIZE_YAML)["k"]); break;
		default: got = from_variant(DeserializeGuess(y = "--- " + s + pad + " # note\n")); break;
		}
		c.note("yaml %s", vp::quote(y).c_str());
		VP_CHECK(guess_same(want, got), "plain scalar in %s read as %s, not %s", vp::quote(y).c_str(), val_str(got).c_str(), val_str(want).c_str());
		if (want.t == Val::Str) VP_CHECK(got.s == s, "text changed");
		// quoted it is a string, whatever it looks like
		Val q = from_variant(Deserialize((c.coin() ? "'" + s + "'" : "\"" + s + "\""), SERIALIZE_YAML));
		if (s.find_first_of("\\\"'") == string::npos) VP_CHECK(val_same(q, Val::str(s)), "quoted %s read as %s", vp::quote(s).c_str(), val_str(q).c_str());
		c.label("yaml plain");
	}
	c.evals(4);
	if (s.size() >= 2) c.nontrivial(vp::hash64(s));
}

class WindowIn : public ParserInput {       // hands out a private, exactly sized copy of growing windows
public:
	const string &t;
	std::vector<unsigned> sizes;
	std::unique_ptr<char[]> win;
	size_t pos = 0, have = 0, turn = 0;
	WindowIn(const string &x) : t(x) {}
	const void *GetPtr(unsigned &len) {
		size_t left = t.size() - pos, want = len > 0 ? len : 1;
		while (have < want && have < left) have = std::min(left, have + sizes[turn++ % sizes.size()]);
		len = have;
		if (!have) return 0;
		win.reset(new char[have]);
		memcpy(win.get(), t.data() + pos, have);
		return win.get();
	}
	void Release(unsigned len) {
		if (len > have) vp::fail("released more than was handed out");
		have -= len; pos += len;
	}
};
struct Out { bool ok = false; Val v; string why; };
template<class F> static Out run(F f) {
	Out o;
	try { o.v = from_variant(f()); o.ok = true; } catch (const std::exception &e) { o.why = e.what(); }
	return o;
}
static void formats(Ctx &c) {
	static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	string t;
	while (c.chance(1, 2)) t += c.chance(1, 20) ? string(c.pick(9000), ' ') : string(1, " \n\t\r"[c.pick(4)]);
	SerializeType f = fs[c.pick(4)];
	if (c.chance(1, 10)) t += string(1, (char)c.pick(256));
	else if (!c.chance(1, 20)) { t += gen_format_text(c, f, false); if (c.chance(1, 4)) damage_text(c, t, f); }
	size_t i = 0;
	while (i < t.size() && wsp(t[i])) ++i;
	SerializeType want = i < t.size() && t[i] == '<' ? SERIALIZE_XMLPLIST : SERIALIZE_YAML;
	c.note("text %s, expected %s", vp::quote(t, 2000).c_str(), format_name(want));
	c.label(string("format ") + format_name(want));
	std::vector<unsigned> sizes;
	do sizes.push_back(1 + c.pick(9)); while (c.more(2));
	shared_ptr<WindowIn> in(new WindowIn(t));
	in->sizes = sizes;
	SerializeType got = GuessFormat(in.get());
	VP_CHECK(got == want, "format of %s guessed as %s", vp::quote(t, 1500).c_str(), format_name(got));
	VP_CHECK(in->pos == 0, "guessing consumed %zu bytes", in->pos);
	Out ref = run([&] { return Deserialize(t.data(), t.size(), want); });
	Out a = run([&] { return DeserializeGuess(t.data(), t.size()); });
	Out b = run([&] { Parser p = CreateParserGuess(in); return ParseVariant(p); });
	Out d = run([&] { return Deserialize(t, SERIALIZE_GUESS); });
	for (const Out *o : {&a, &b, &d})
		VP_CHECK(o->ok == ref.ok && val_same(o->v, ref.v), "guessing parse of %s gave %s, parsing as %s gave %s", vp::quote(t, 1500).c_str(),
			o->ok ? val_str(o->v).c_str() : o->why.c_str(), format_name(want), ref.ok ? val_str(ref.v).c_str() : ref.why.c_str());
	c.evals(4);
	if (t.size() >= 4) c.nontrivial(vp::hash64(t));
}

static string jstr(Ctx &c, const string &s) {
	string r = "\"";
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char ch = s[i];
		switch (ch) {
		case '"': r += "\\\""; break;
		case '\\': r += "\\\\"; break;
		case '\n': r += "\\n"; break;
		case '\t': r += "\\t"; break;
		case '\r': r += "\\r"; break;
		case '\b': r += "\\b"; break;
		case '\f': r += "\\f"; break;
		default:
			if (ch < 32 || ch == 127 || (ch < 127 && c.chance(1, 12))) r += vp::fmt(c.coin() ? "\\u%04x" : "\\u%04X", ch);
			else r += s[i];
		}
	}
	return r + "\"";
}
static string js(Ctx &c, const Val &v) {
	string sp = c.chance(1, 3) ? " " : "", nl = c.chance(1, 6) ? "\n  " : "";
	switch (v.t) {
	case Val::Null: return "null";
	case Val::Bool: return v.b ? "true" : "false";
	case Val::Int: return vp::fmt("%lld", (long long)v.i);
	case Val::UInt: return vp::fmt("%llu", (unsigned long long)v.u);
	case Val::Float: { string s = vp::fmt(c.coin() ? "%.17g" : "%.17e", v.d); if (s.find_first_of(".e") == string::npos) s += ".0"; return s; }
	case Val::Str: return jstr(c, v.s);
	case Val::List: {
		string s = "[" + nl;
		for (size_t i = 0; i < v.l.size(); ++i) s += (i ? "," + nl + sp : "") + js(c, v.l[i]);
		return s + nl + "]";
	}
	case Val::Map: {
		string s = "{" + nl;
		bool first = true;
		for (auto &x : v.m) { s += (first ? "" : "," + sp) + jstr(c, x.first) + ": " + js(c, x.second); first = false; }
		return s + nl + "}";
	}
	default: return "null";
	}
}
// characters both formats allow unescaped
static void common(string &s) {
	string r;
	for (size_t i = 0; i < s.size();) {
		unsigned char ch = s[i];
		size_t n = ch < 0x80 ? 1 : ch < 0xe0 ? 2 : ch < 0xf0 ? 3 : 4;
		string x = s.substr(i, n);
		i += n;
		if (ch == 0x7f || (ch == 0xc2 && (unsigned char)x[1] < 0xa0) || x == "\xe2\x80\xa8" || x == "\xe2\x80\xa9" || x == "\xef\xbf\xbe" || x == "\xef\xbf\xbf" || x == "\xef\xbb\xbf") continue;
		r += x;
	}
	s = r;
}
static void common(Val &v) {
	common(v.s);
	for (auto &x : v.l) common(x);
	std::map<string, Val> m;
	for (auto &x : v.m) { string k = x.first; common(k); common(x.second); m[k] = x.second; }
	v.m.swap(m);
}
static void json_as_guess(Ctx &c) {
	GenOpt o;
	o.blobs = false; o.nonfinite = false; o.text = TK_YAML; o.longstr = false; o.big = false;
	Val v = gen_container(c, o);
	common(v);
	string t = c.coin() ? js(c, v) : Serialize(to_variant(v), SERIALIZE_JSON);
	c.note("json %s", vp::quote(t, 3000).c_str());
	Out a = run([&] { return Deserialize(t, SERIALIZE_JSON); }), b = run([&] { return DeserializeGuess(t); });
	VP_CHECK(a.ok, "JSON %s not read as JSON: %s", vp::quote(t, 1500).c_str(), a.why.c_str());
	VP_CHECK(b.ok, "JSON %s not read by guessing: %s", vp::quote(t, 1500).c_str(), b.why.c_str());
	VP_CHECK(val_equal(a.v, b.v), "JSON %s reads as %s, by guessing as %s", vp::quote(t, 1500).c_str(), val_str(a.v).c_str(), val_str(b.v).c_str());
	c.label("json by guessing");
	c.evals(2);
	if (t.size() >= 4) c.nontrivial(vp::hash64(t));
}
void vp_case(Ctx &c) {
	switch (c.weighted({4, 2, 2})) {
	case 0: scalars(c); break;
	case 1: formats(c); break;
	default: json_as_guess(c);
	}
}

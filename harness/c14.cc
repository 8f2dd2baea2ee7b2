// Any bytes given to any parser: a value or an exception, the same again, nothing worse.
#include "val.h"
#include "texts.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Payload.h>
#include <Variant/GuessFormat.h>
#include <string.h>
#include <memory>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the text has at least 4 bytes and is not blank";

static const SerializeType formats[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR, SERIALIZE_GUESS};

static const std::vector<string> &tokens(SerializeType f) {
	static const std::vector<string> js = {"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "0", "-", "1", ".5", "e", "E+", "1e5", "-0.0", "true", "false", "null", "\\", "\\u", "\\ud834", "\\udd1e", "\\n", "/*", "*/", "//", "\n", " ", "\t", "\xc3", "\xa9", "\xf0\x9f", string("\0", 1), "NaN", "Infinity", "+", "99999999999999999999", "\"$\"", "\\x"};
	static const std::vector<string> ya = {"- ", ": ", "? ", "&a ", "*a", "&b ", "*b", "\n", "  ", "    ", "a", "b", "1", "0x1f", "0o17", "1.5e3", ".inf", ".nan", "~", "null", "\"", "'", "|\n", ">-\n", "|2\n", "---\n", "...\n", "%YAML 1.1\n", "%TAG ! x\n", "{", "}", "[", "]", ",", "#", "!!int ", "!!str ", "!!binary ", "!!map ", "!<x> ", "<<: ", "<<: *a", "\\", "\t", "@", "`", "\xef\xbb\xbf", "\xc3\xa9", "\xff", string("\0", 1), "2001-01-01", "=", "\r", "\"\\u0041\"", "YWJj"};
	static const std::vector<string> xm = {"<plist>", "</plist>", "<dict>", "</dict>", "<array>", "</array>", "<key>", "</key>", "<string>", "</string>", "<integer>", "</integer>", "<real>", "</real>", "<true/>", "<false/>", "<null/>", "<data>", "</data>", "<date>", "</date>", "<dict/>", "<array/>", "<", ">", "/", "&amp;", "&lt;", "&#65;", "&#x41;", "&#0;", "&e;", "<![CDATA[", "]]>", "<!--", "-->", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "<?x y?>", "<!DOCTYPE plist [<!ENTITY e \"text\">]>", "<!DOCTYPE plist [<!ENTITY e \"<array/>\">]>", "<!DOCTYPE plist [<!ENTITY f \"x\"><!ENTITY e \"&f;&f;\">]>", "\n", " ", "a", "1", "1.5", "-3", "YWJj", "\"", "'", "=", "<plist version=\"1.0\">", "<x:dict>", "<unknown>", "</unknown>", "\xc3\xa9", "\xff", string("\0", 1), "\x01", "nan", "99999999999999999999"};
	static const std::vector<string> bu = {"bundle.version: 0.0\n", "a", "b", ": ", ":", "|", "||", "\n", "#", " ", "1", "1.5", "-3", "true", "null", "\"", "'", "[", "]", "\\", "\\n", string("\0", 1), "\t", "\r\n", "\xff", "a: b\n", "k: 1|2|3\n", "k: x|\n", "payload.length: 4\n", "99999999999999999999", "0x10", "~"};
	return f == SERIALIZE_JSON ? js : f == SERIALIZE_XMLPLIST ? xm : f == SERIALIZE_BUNDLEHDR ? bu : ya;
}

static string gen_any(Ctx &c, SerializeType f) {
	string t;
	switch (c.weighted({3, 4, 2, 1, 1})) {
	case 0: t = gen_format_text(c, f, false); break;
	case 1: {
		const std::vector<string> &k = tokens(f);
		unsigned n = 0;
		while (n++ < 60 && c.more(14)) t += c.oneof(k);
		if (f == SERIALIZE_XMLPLIST && c.coin()) t = "<plist>" + t;
		return t;
	}
	case 2: {                                      // parts of two texts
		string a = gen_format_text(c, f, false), b = gen_format_text(c, c.coin() ? f : formats[c.pick(4)], false);
		t = a.substr(0, c.pick(a.size() + 1)) + b.substr(c.pick(b.size() + 1));
		break;
	}
	case 3: t = gen_bytes(c, 30); break;
	default: {                                     // nesting
		unsigned n = 1 + c.pick(c.coin() ? 300 : 20), close = c.coin() ? n : c.pick(n + 2);
		static const char *op[] = {"[", "{\"a\":", "- ", "<array>", "<dict><key>a</key>", "? ", "{a: "};
		static const char *cl[] = {"]", "}", "", "</array>", "</dict>", "", "}"};
		unsigned k = f == SERIALIZE_JSON ? c.pick(2) : f == SERIALIZE_XMLPLIST ? 3 + c.pick(2) : c.pick(7);
		for (unsigned i = 0; i < n; ++i) t += op[k];
		if (c.coin()) t += "1";
		for (unsigned i = 0; i < close; ++i) t += cl[k];
		if (f == SERIALIZE_XMLPLIST) t = "<plist>" + t + "</plist>";
		return t;
	}
	}
	while (c.chance(3, 5)) damage_text(c, t, f);
	return t;
}

struct Out { bool ok = false; Val v; string why; };
template<class F> static Out run(F f) {
	Out o;
	try { Variant x = f(); o.v = from_variant(x); o.ok = true; }
	catch (const std::exception &e) { o.why = e.what(); }
	return o;
}

static Variant parse(const void *p, unsigned n, SerializeType f, unsigned way) {
	switch (way) {
	case 0: return f == SERIALIZE_GUESS ? DeserializeGuess(p, n) : Deserialize(p, n, f);
	case 1: { shared_ptr<ParserInput> in = CreateParserInput(p, n); Parser q = f == SERIALIZE_GUESS ? CreateParserGuess(in) : CreateParser(in, f); return ParseVariant(q); }
	case 2: return f == SERIALIZE_GUESS ? DeserializeWithPayload(p, n, SERIALIZE_YAML) : DeserializeWithPayload(p, n, f);
	default: {                                     // every document, and beyond errors
		shared_ptr<ParserInput> in = CreateParserInput(p, n);
		Parser q = f == SERIALIZE_GUESS ? CreateParserGuess(in) : CreateParser(in, f);
		Variant all(Variant::ListType);
		unsigned bad = 0;
		for (unsigned i = 0; i < 12 && bad < 3; ++i) {
			try { all.Append(ParseVariant(q)); }
			catch (const std::exception &e) { ++bad; all.Append(string("error")); }
		}
		return all;
	}
	}
}

static void use(Ctx &c, const Variant &v, const Val &m) {
	Variant k = v.Copy();
	VP_CHECK(val_same(from_variant(k), m), "the copy of the parsed value differs");
	std::function<bool(const Val&)> nan = [&](const Val &x) -> bool {
		if (x.t == Val::Float && x.d != x.d) return true;
		for (auto &y : x.l) if (nan(y)) return true;
		for (auto &y : x.m) if (nan(y.second)) return true;
		return false;
	};
	bool eq = k == v;
	VP_CHECK(eq || nan(m), "the copy of the parsed value is not equal to it");
	for (unsigned i = 0; i < 4; ++i) {
		string s;
		try { s = Serialize(v, formats[i], gen_params(c, formats[i])); } catch (const std::exception&) { continue; }
		try { Variant back = Deserialize(s, formats[i]); } catch (const std::exception&) {}
	}
	try { SerializeWithPayload(v, formats[c.pick(4)]); } catch (const std::exception&) {}
	Variant x = v;
	x.Clear();
}

void vp_case(Ctx &c) {
	SerializeType f = formats[c.pick(5)];
	string t = gen_any(c, f);
	unsigned way = c.weighted({4, 2, 2, 2});
	if (way == 2 && c.coin()) t += string("\n\0", 2) + gen_bytes(c, 6);
	static const char *ways[] = {"directly", "with a parser object", "as header of a payload", "document by document"};
	c.note("format %s, %s, text %s", format_name(f), ways[way], vp::quote(t, 3000).c_str());
	c.label(format_name(f));
	std::unique_ptr<char[]> blk(new char[t.size()]);
	memcpy(blk.get(), t.data(), t.size());
	Variant v;
	Out a, b;
	try { v = parse(blk.get(), t.size(), f, way); a.ok = true; } catch (const std::exception &e) { a.why = e.what(); }
	VP_CHECK(memcmp(blk.get(), t.data(), t.size()) == 0, "parsing changed the text");
	if (a.ok) a.v = from_variant(v);
	c.label(a.ok ? "value" : "error");
	b = run([&] { return parse(blk.get(), t.size(), f, way); });
	VP_CHECK(a.ok == b.ok && val_same(a.v, b.v) && a.why == b.why, "parsing %s %s twice gives %s and %s", format_name(f), vp::quote(t, 1500).c_str(),
		a.ok ? val_str(a.v).c_str() : a.why.c_str(), b.ok ? val_str(b.v).c_str() : b.why.c_str());
	blk.reset();
	if (a.ok) { VP_CHECK(val_same(from_variant(v), a.v), "the parsed value changed when the text was freed"); use(c, v, a.v); }
	v = Variant();
	if (c.chance(1, 25)) vp::leak_check([&] { try { parse(t.data(), t.size(), f, way); } catch (const std::exception&) {} }, "parsing");
	c.evals(2);
	if (t.size() >= 4 && t.find_first_not_of(" \t\r\n") != string::npos) c.nontrivial(vp::hashmix(vp::hash64(t), f * 4 + way));
}

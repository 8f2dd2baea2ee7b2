#include "texts.h"
#include "refguess.h"
#include <string.h>
using namespace libvariant;
using vp::Ctx;
const char *format_name(SerializeType f) {
	switch (f) {
	case SERIALIZE_GUESS: return "guess";
	case SERIALIZE_JSON: return "json";
	case SERIALIZE_YAML: return "yaml";
	case SERIALIZE_XMLPLIST: return "xml";
	case SERIALIZE_BUNDLEHDR: return "bundle";
	default: return "?";
	}
}
Variant gen_params(Ctx &c, SerializeType f) {
	Variant p;
	if (!c.coin()) return p;
	p = VariantDefines::MapType;
	if (f == SERIALIZE_YAML) {
		static const char *sc[] = {"any", "plain", "single quoted", "double quoted", "literal", "folded"};
		static const char *st[] = {"any", "block", "flow"};
		if (c.chance(1, 3)) p["scalar_style"] = sc[c.pick(6)];
		if (c.chance(1, 3)) p["map_style"] = st[c.pick(3)];
		if (c.chance(1, 3)) p["list_style"] = st[c.pick(3)];
		if (c.chance(1, 4)) p["implicit_document_begin"] = c.coin();
		if (c.chance(1, 4)) p["implicit_document_end"] = c.coin();
		if (c.chance(1, 4)) { static const int w[] = {1, 5, 20, 40, 80, 1000, -1}; p["width"] = w[c.pick(7)]; }
	}
	if (f == SERIALIZE_JSON || f == SERIALIZE_XMLPLIST) if (c.coin()) p["pretty"] = c.coin();
	if (f != SERIALIZE_BUNDLEHDR && c.chance(1, 3)) p["indent"] = (int)(c.chance(1, 25) ? 60 + c.pick(400) : c.pick(12));
	if (c.chance(1, 4)) p["precision"] = (int)(17 + c.pick(8));
	return p;
}
static bool wsp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string clean(const std::string &s, bool key) {
	std::string r;
	for (char ch : s) {
		if (ch == '\n' || ch == '#' || ch == 0 || (!key && ch == '|')) continue;
		if (key && (ch == ':' || wsp(ch))) continue;
		r += ch;
	}
	size_t b = 0, e = r.size();
	while (b < e && wsp(r[b])) ++b;
	while (e > b && wsp(r[e - 1])) --e;
	return r.substr(b, e - b);
}
static Val bscalar(Ctx &c, bool inlist) {
	GenOpt o;
	Val v;
	switch (c.weighted({4, 4, 3, 4, 6, 3, 2})) {
	case 0: return Val::integer(gen_int(c));
	case 1: v = Val::str(clean(gen_scalar_text(c), false)); break;
	case 2: return Val::uinteger(gen_uint(c));
	case 3: return Val::real(gen_double(c, false));
	case 4: v = Val::str(clean(gen_text(c, o), false)); break;
	case 5: return Val::boolean(c.coin());
	default: return inlist ? Val::boolean(true) : Val::null();
	}
	if (inlist && v.s.empty()) v.s = "e";
	return v;
}
Val gen_bundle_map(Ctx &c) {
	GenOpt o;
	Val v = Val::map();
	unsigned n = 0;
	while (n++ < 12 && c.more(4)) {
		std::string k = c.coin() ? clean(gen_key(c, o), true) : vp::fmt("k%u", n);
		if (k == "bundle.version" || k == "payload.length" || k == "payload.data") k = "x";
		Val x;
		if (c.chance(1, 3)) {
			x = Val::list();
			unsigned m = 0;
			while (m++ < 8 && c.more(3)) x.l.push_back(bscalar(c, true));
		} else x = bscalar(c, false);
		v.m[k] = x;
	}
	return v;
}
Val gen_val_for(Ctx &c, SerializeType f) {
	GenOpt o;
	switch (f) {
	case SERIALIZE_BUNDLEHDR: return gen_bundle_map(c);
	case SERIALIZE_XMLPLIST: o.text = TK_XML; break;
	default: break;
	}
	if (f != SERIALIZE_JSON && c.chance(1, 6)) return gen_scalar(c, o);
	return gen_container(c, o);
}
static std::string ser(const Val &v, SerializeType f, const Variant &p) {
	return p.IsNull() ? Serialize(to_variant(v), f) : Serialize(to_variant(v), f, p);
}
// ---- YAML by hand
static void yscalar(Ctx &c, std::string &t) {
	GenOpt o;
	switch (c.weighted({5, 4, 2, 2})) {
	case 0: t += gen_scalar_text(c); break;
	case 1: { static const char *w[] = {"a", "foo bar", "x-y", "3 x", "a:b", "http://x", "- x", "é", "a #b", "a: b", "?", "@a", "%", "`", "!x", "&x", "*x", "|", ">", "[", "{", ",", "a,b", "\"", "'"}; t += w[c.pick(25)]; break; }
	case 2: { t += '\''; std::string s = gen_text(c, o); for (char ch : s) { if (ch == '\'') t += '\''; t += ch; } t += '\''; break; }
	default: { t += '"'; static const char *e[] = {"a", "\\n", "\\x41", "\\u00e9", "\\U0001F600", "\\\"", "\\\\", " ", "\\t", "\\0", "\\e", "\\_", "\\N", "\\\n  ", "\n\n ", "\\q", "\\ud800"}; while (c.more(4)) t += e[c.pick(17)]; t += '"'; }
	}
}
static void yflow(Ctx &c, std::string &t, unsigned depth);
static void yprops(Ctx &c, std::string &t) {
	if (c.chance(1, 10)) t += vp::fmt("&a%u ", (unsigned)c.pick(4));
	if (c.chance(1, 20)) { static const char *g[] = {"!!str ", "!!binary ", "!!int ", "!foo ", "!<tag:x> ", "!!map ", "!!seq ", "!!null ", "!e!x "}; t += g[c.pick(9)]; }
}
static void yflow(Ctx &c, std::string &t, unsigned depth) {
	yprops(c, t);
	switch (depth > 3 ? 0 : c.weighted({5, 2, 2, 1})) {
	case 0: yscalar(c, t); break;
	case 1: { t += '['; unsigned n = 0; while (n < 6 && c.more(2)) { if (n++) t += ", "; yflow(c, t, depth + 1); } if (c.chance(1, 8)) t += ","; t += ']'; break; }
	case 2: { t += '{'; unsigned n = 0; while (n < 6 && c.more(2)) { if (n++) t += ", "; yscalar(c, t); if (c.chance(9, 10)) { t += ": "; yflow(c, t, depth + 1); } } t += '}'; break; }
	default: t += vp::fmt("*a%u", (unsigned)c.pick(4)); break;
	}
}
static void yblock(Ctx &c, std::string &t, unsigned ind, unsigned depth) {
	std::string pad(ind, ' ');
	unsigned n = 0;
	switch (depth > 3 ? 2 : c.weighted({3, 3, 3, 1, 1})) {
	case 0: do { t += pad + "- "; if (c.chance(1, 4) && depth < 3) { t += "\n"; yblock(c, t, ind + 1 + c.pick(3), depth + 1); } else { yflow(c, t, depth + 1); t += "\n"; } } while (++n < 6 && c.more(2)); break;
	case 1: do {
			t += pad; if (c.chance(1, 15)) t += "? "; 
			if (c.chance(1, 25)) t += "<<"; else if (c.coin()) t += vp::fmt("k%u", n); else yscalar(c, t);
			t += c.chance(1, 15) ? "\n" + pad + ":" : ":";
			if (c.chance(1, 3) && depth < 3) { t += " "; yprops(c, t); t += "\n"; yblock(c, t, ind + 1 + c.pick(3), depth + 1); }
			else { t += " "; yflow(c, t, depth + 1); if (c.chance(1, 8)) t += " # c"; t += "\n"; } } while (++n < 6 && c.more(2)); break;
	case 2: t += pad; yflow(c, t, depth); t += "\n"; break;
	case 3: { static const char *h[] = {"|", ">", "|-", "|+", ">-", ">+", "|2", ">1-"}; t += pad + h[c.pick(8)] + "\n"; while (c.more(2)) t += pad + "  line " + (c.coin() ? "x" : "") + "\n"; break; }
	default: t += pad; yscalar(c, t); t += "\n"; break;
	}
}
std::string gen_yaml_text(Ctx &c) {
	std::string t;
	if (c.chance(1, 12)) t += c.coin() ? "%YAML 1.1\n---\n" : c.coin() ? "%TAG !e! tag:e,2000:\n---\n" : "%YAML 2.0\n---\n";
	unsigned n = 0;
	do {
		if (n || c.chance(1, 5)) t += c.chance(1, 6) ? "--- " : "---\n";
		if (c.chance(1, 10)) t += "# comment\n";
		yblock(c, t, 0, 0);
		if (c.chance(1, 10)) t += "...\n";
	} while (++n < 4 && c.chance(1, 6));
	return t;
}
// ---- XML by hand
static void xtext(Ctx &c, std::string &t) {
	static const char *w[] = {"a", " ", "x y", "&amp;", "&lt;", "&#65;", "&#x1F600;", "&quot;", "<![CDATA[<x>&]]>", "<!-- c -->", "<?pi x?>", "\n", "&e;", "&f;", "é", "]]&gt;", "&unknown;", "&#0;", "&", "<x/>"};
	while (c.more(3)) t += w[c.weighted({8, 3, 3, 3, 2, 2, 1, 2, 3, 2, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1})];
}
static void xval(Ctx &c, std::string &t, unsigned depth) {
	if (c.chance(1, 12)) t += c.coin() ? "<!-- c -->" : " \n";
	switch (depth > 4 ? c.pick(7) : c.weighted({3, 3, 3, 2, 2, 2, 2, 5, 5, 1})) {
	case 0: t += "<string>"; xtext(c, t); t += "</string>"; break;
	case 1: { static const char *w[] = {" 1 ", "0x10", "-5", "+7", "010", "abc", "", "99999999999999999999", "18446744073709551615", "1.5", "- 1", "<!--x-->12<!--y-->3", "9223372036854775807", "9223372036854775808", "&#49;2"}; t += "<integer>"; t += w[c.pick(15)]; t += "</integer>"; break; }
	case 2: { static const char *w[] = {"1.5", " 2e3 ", "inf", "nan", "-inf", "x", "", "0x1p3", "1,5", "1e999", "-0.0", "<![CDATA[3]]>.25"}; t += "<real>"; t += w[c.pick(12)]; t += "</real>"; break; }
	case 3: t += c.coin() ? "<true/>" : c.coin() ? "<false></false>" : "<TRUE/>"; break;
	case 4: t += "<data>"; { static const char *w[] = {"QUJD", " QU\nJD ", "QQ==", "", "%%", "QUI=", "====", "Q"}; t += w[c.pick(8)]; } t += "</data>"; break;
	case 5: { static const char *w[] = {"<string/>", "<null/>", "<null></null>", "<data/>", "<integer/>", "<real/>", "<true>x</true>", "<odd>text</odd>", "<plist/>"}; t += w[c.pick(9)]; break; }
	case 6: t += c.coin() ? "<array/>" : "<dict/>"; break;
	case 7: { t += "<array>"; unsigned n = 0; while (n++ < 6 && c.more(2)) xval(c, t, depth + 1); t += "</array>"; break; }
	case 8: { t += "<dict>"; unsigned n = 0; while (n++ < 6 && c.more(2)) { if (c.chance(1, 12)) t += "<key/>"; else { t += "<key>"; if (c.coin()) t += vp::fmt("k%u", n); else xtext(c, t); t += "</key>"; } if (!c.chance(1, 20)) xval(c, t, depth + 1); } t += "</dict>"; break; }
	default: t += "<plist>"; xval(c, t, depth + 1); t += "</plist>"; break;
	}
}
std::string gen_xml_text(Ctx &c) {
	std::string t;
	if (c.coin()) { static const char *e[] = {"UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16", "bogus"}; t += vp::fmt("<?xml version=\"1.%u\" encoding=\"%s\"?>", c.chance(1, 10) ? 1u : 0u, e[c.weighted({8, 1, 1, 1, 1})]); }
	if (c.chance(1, 3)) {
		t += "<!DOCTYPE plist";
		if (c.chance(1, 3)) t += " PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"x.dtd\"";
		if (c.coin()) t += " [<!ENTITY e \"ent\"><!ENTITY f \"&e;&e;<string>i</string>\">]";
		t += ">";
	}
	bool root = c.coin();
	if (root) t += c.coin() ? "<plist version=\"1.0\">" : "<plist>";
	xval(c, t, 0);
	if (root) { if (c.chance(1, 15)) xval(c, t, 0); t += "</plist>"; }
	if (c.chance(1, 10)) t += c.coin() ? "\n" : "<!-- end -->";
	return t;
}
std::string gen_bundle_text(Ctx &c) {
	std::string t;
	unsigned n = 0;
	if (c.coin()) t += "bundle.version: 0.0\n";
	while (n < 20 && c.more(4)) {
		static const char *pre[] = {"", " ", "\t", "# ", "#"};
		t += pre[c.weighted({12, 1, 1, 1, 1})];
		if (c.chance(1, 12)) { static const char *j[] = {"", "nothing", ":", ": v", "k", "k :", "|", "a b: c", "k:#", "bundle.version: 1"}; t += j[c.pick(10)]; }
		else {
			t += c.coin() ? vp::fmt("k%u", n) : std::string(1, (char)(33 + c.pick(94)));
			static const char *sep[] = {": ", ":", " : ", "\t:\t", ":  "};
			t += sep[c.pick(5)];
			unsigned m = 0;
			do { if (m) t += '|'; if (c.chance(9, 10)) t += gen_scalar_text(c); } while (++m < 6 && c.chance(1, 3));
			if (c.chance(1, 6)) t += '|';
			if (c.chance(1, 8)) t += " # note";
		}
		t += c.chance(1, 15) ? "\r\n" : "\n";
		++n;
	}
	if (c.chance(1, 4) && !t.empty()) t.resize(t.size() - 1);
	return t;
}
std::string gen_format_text(Ctx &c, SerializeType f, bool large_ok) {
	SerializeType g = f;
	if (f == SERIALIZE_GUESS) { static const SerializeType k[] = {SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_JSON}; g = k[c.pick(3)]; }
	std::string t;
	bool byhand = g != SERIALIZE_JSON && c.chance(2, 5);
	if (byhand) t = g == SERIALIZE_YAML ? gen_yaml_text(c) : g == SERIALIZE_XMLPLIST ? gen_xml_text(c) : gen_bundle_text(c);
	else {
		Val v = gen_val_for(c, g);
		if (large_ok && c.chance(1, 15)) {       // past every internal buffer
			Val big = g == SERIALIZE_BUNDLEHDR ? Val::map() : Val::list();
			unsigned n = 1 + c.pick(60);
			std::string fill(200 + c.pick(400), 'f');
			for (unsigned i = 0; i < n; ++i) {
				if (g == SERIALIZE_BUNDLEHDR) {
					big.m[vp::fmt("n%u", i)] = Val::str(fill + vp::fmt("%u", i));
					if (i % 7 == 3) { Val l = Val::list(); for (unsigned k = 0; k < 40; ++k) l.l.push_back(Val::integer(k * i)); big.m[vp::fmt("l%u", i)] = l; }
				} else { big.l.push_back(i % 9 == 4 ? v : Val::str(fill + vp::fmt("%u", i))); }
			}
			v = big;
		}
		Variant p = gen_params(c, g);
		t = ser(v, g, p);
	}
	if (f == SERIALIZE_GUESS && c.chance(1, 4)) { static const char *w[] = {" ", "\n", "\t", "\n\n  "}; t = w[c.pick(4)] + t; }
	return t;
}
void damage_text(Ctx &c, std::string &t, SerializeType f) {
	static const char *json[] = {",", ":", "[", "]", "{", "}", "\"", "\\", "/*", "*/", "1e", "tru", "\\u12", "\\ud800", "-", "\"\\u0000BLOBQQ", "0", "."};
	static const char *yaml[] = {"- ", ": ", "&a ", "*a", "!!binary ", "|", ">", "---\n", "...\n", "? ", "{", "[", "]", "}", ",", "#", "\t", "%", "'", "\"", "\\", "<<: ", "\n  ", "*a0", "&a0 "};
	static const char *xml[] = {"<", ">", "</", "/>", "<dict>", "</dict>", "<array>", "</array>", "<key>", "</key>", "<string>", "</string>", "<plist>", "</plist>", "&amp;", "&", "]]>", "<![CDATA[", "<!--", "-->", "<integer>", "</integer>", "<data>", "<true/>", "\"", "="};
	static const char *bun[] = {":", "|", "#", "\n", "\r", " ", "a: ", "|\n", "bundle.version: 9\n", "\0"};
	static const char *any[] = {"\x01", "\x7f", "\n", "\t", " ", "x", "\xff", "\xc3", "\xed\xa0\x80", "\xef\xbb\xbf", "\xfe\xff", "\r", "\v", "\xa0", "é"};
	size_t at = c.pick(t.size() + 1);
	std::string fr;
	switch (c.pick(4)) {
	case 0: fr = any[c.pick(15)]; break;
	case 1: if (c.chance(1, 4)) fr = std::string(1, '\0'); else fr = std::string(1, (char)c.pick(256)); break;
	default:
		switch (f) {
		case SERIALIZE_JSON: fr = json[c.pick(18)]; break;
		case SERIALIZE_XMLPLIST: fr = xml[c.pick(26)]; break;
		case SERIALIZE_BUNDLEHDR: fr = bun[c.pick(10)]; break;
		default: fr = c.chance(1, 4) ? xml[c.pick(26)] : yaml[c.pick(25)]; break;
		}
	}
	if (fr.empty()) fr = std::string(1, '\0');
	switch (c.weighted({3, 4, 3, 2, 2, 1})) {
	case 0: if (at < t.size()) t.erase(at, 1); break;
	case 1: t.insert(at, fr); break;
	case 2: if (at < t.size()) t[at] = fr[0]; break;
	case 3: if (at < t.size()) { size_t n = 1 + c.pick(6); t.erase(at, n); } break;
	case 4: t.resize(at); break;
	default: if (at < t.size()) { std::string s = t.substr(at, 1 + c.pick(8)); t.insert(c.pick(t.size()), s); } break;
	}
}

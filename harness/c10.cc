// C10: XML property-list serialisation round-trips every value.
#include "val.h"
#include <math.h>
using namespace libvariant;
const char *vp_rule = "the value is a container with content or a string/float/blob scalar";

// Text that holds at least one byte sequence XML has no character for.
static std::string bad_text(vp::Ctx &c) {
	static const std::string bad[] = {
		std::string(1, '\0'), "\x01", "\x08", "\x0b", "\x0c", "\x0e", "\x1b", "\x1f",
		"\xef\xbf\xbe", "\xef\xbf\xbf", "\xed\xa0\x80", "\xed\xbf\xbf",
		"\x80", "\xbf", "\xff", "\xfe", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf",
		"\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98",
	};
	static const std::string around[] = { "", "a", "abc", "<", "&amp;", "\xc3\xa9", "\xf0\x9f\x98\x80", " ", "]]>", "\n" };
	const size_t nb = sizeof(bad) / sizeof(bad[0]), na = sizeof(around) / sizeof(around[0]);
	std::string s;
	for (size_t n = c.pick(4); n > 0; --n) s += around[c.pick(na)];
	size_t k = c.pick(nb);
	s += bad[k];
	// what follows cannot complete a cut sequence: nothing in `around` starts with a continuation byte
	for (size_t n = c.pick(4); n > 0; --n) s += around[c.pick(na)];
	return s;
}

static void unrepresentable(vp::Ctx &c) {
	GenOpt o;
	o.text = TK_XML;
	Val v = gen_container(c, o);
	Variant in = to_variant(v);
	std::string bad = bad_text(c);
	// place it as a value or a key somewhere in the container
	Variant at = in;
	for (int d = 0; d < 6; ++d) {
		if (!at.Size() || !c.coin()) break;
		Variant next;
		if (at.IsMap()) {
			Variant::MapIterator it = at.MapBegin();
			for (size_t n = c.pick(at.Size()); n > 0; --n) ++it;
			next = it->second;
		} else next = at.At((unsigned)c.pick(at.Size()));
		if (!next.IsMap() && !next.IsList()) break;
		at = next;
	}
	bool key = false;
	if (at.IsMap()) {
		key = c.coin();
		if (key) at[bad] = (int)c.pick(3); else at["bad"] = bad;
	} else at.Append(bad);
	Val w = from_variant(in);
	c.label(key ? "unrepresentable key" : "unrepresentable text");
	c.note("value %s", val_str(w).c_str());
	c.nontrivial(val_hash(w));
	bool pretty = c.coin();
	std::string text;
	bool threw = false;
	try { text = pretty ? Serialize(in, SERIALIZE_XMLPLIST, Variant(VariantDefines::MapType).Set("pretty", true)) : Serialize(in, SERIALIZE_XMLPLIST); }
	catch (std::exception &) { threw = true; }
	VP_CHECK(val_same(from_variant(in), w), "serialising changed the variant: %s", val_str(w).c_str());
	if (threw) return;
	Val b;
	try { b = from_variant(Deserialize(text, SERIALIZE_XMLPLIST)); }
	catch (std::exception &e) { vp::fail(vp::fmt("serialising %s succeeded but the output does not parse (%s): %s", val_str(w).c_str(), e.what(), vp::quote(text, 2000).c_str())); }
	VP_CHECK(val_equal_roundtrip(w, b, false), "serialising %s succeeded but the output stands for %s: %s", val_str(w).c_str(), val_str(b).c_str(), vp::quote(text, 2000).c_str());
}

// The same document with CDATA sections, character references and comments in
// the text of its scalars and white space around its elements.
static std::string respell(vp::Ctx &c, const std::string &t) {
	std::string r;
	bool scalar = false;
	unsigned rate = 2 + c.pick(12);
	for (size_t k = 0; k < t.size();) {
		if (t[k] == '<') {
			size_t e = t.find('>', k);
			if (e == std::string::npos) return t;
			std::string tag = t.substr(k, e + 1 - k), name = tag.substr(1, tag.find_first_of(" />", 1) - 1);
			bool open = tag[1] != '/' && tag[1] != '?' && tag[1] != '!' && tag[tag.size() - 2] != '/';
			bool leaf = name == "string" || name == "key" || name == "integer" || name == "real" || name == "data";
			if (!scalar && k && c.chance(1, rate)) r += c.coin() ? "\n\t" : " ";
			if (tag[tag.size() - 2] == '/' && c.chance(1, 3)) tag = "<" + name + "></" + name + ">";
			else if (tag[1] != '?' && tag[1] != '!' && c.chance(1, rate)) tag.insert(tag.size() - (tag[tag.size() - 2] == '/' ? 2 : 1), 1, ' ');
			r += tag;
			scalar = open && leaf;
			k = e + 1;
			continue;
		}
		size_t n = 1;
		if (t[k] == '&') n = t.find(';', k) + 1 - k;
		else while (k + n < t.size() && ((unsigned char)t[k + n] & 0xc0) == 0x80) ++n;
		std::string piece = t.substr(k, n);
		k += n;
		if (scalar && c.chance(1, rate)) {
			switch (c.pick(4)) {
			case 0: r += c.coin() ? "<!-- <string>c</string> -->" : "<?p i?>"; r += piece; break;
			case 1: if (piece.size() == 1) r += vp::fmt(c.coin() ? "&#%u;" : "&#x%x;", (unsigned char)piece[0]); else r += piece; break;
			case 2: if (piece[0] != '&' && piece[0] != '\r') r += "<![CDATA[" + piece + "]]>"; else if (piece == "&lt;") r += "<![CDATA[<]]>"; else if (piece == "&amp;") r += "<![CDATA[&]]>"; else r += piece; break;
			default: r += "<![CDATA[]]>"; r += piece; break;
			}
		} else r += piece;
	}
	return r;
}

void vp_case(vp::Ctx &c) {
	if (c.chance(1, 6)) { unrepresentable(c); return; }
	GenOpt o;
	o.text = TK_XML;
	o.nonfinite = c.chance(1, 3);
	o.blobs = c.chance(1, 2);
	bool rootscalar = c.chance(1, 5);
	Val v = rootscalar ? gen_scalar(c, o) : gen_container(c, o);
	if (c.chance(1, 400)) { Val x = gen_large(c, o.blobs); if (v.t == Val::List) v.l.push_back(x); else if (v.t == Val::Map) v.m["large"] = x; else v = x; c.label("large"); }
	Variant params;
	if (c.chance(2, 3)) {
		params = VariantDefines::MapType;
		if (c.coin()) params["pretty"] = c.coin();
		if (c.chance(1, 3)) params["indent"] = (int)c.pick(12);
		if (c.chance(1, 4)) params["precision"] = (int)(17 + c.pick(8));
	}
	c.note("value %s", val_str(v).c_str());
	c.note("params %s", params.IsNull() ? "none" : val_str(from_variant(params)).c_str());
	if (val_nodes(v) >= 2 || v.t == Val::Str || v.t == Val::Float || v.t == Val::Blob) c.nontrivial(vp::hashmix(val_hash(v), val_hash(from_variant(params))));
	c.label(rootscalar ? "scalar root" : "container root");
	Variant in = to_variant(v);
	std::string text;
	try { text = params.IsNull() ? Serialize(in, SERIALIZE_XMLPLIST) : Serialize(in, SERIALIZE_XMLPLIST, params); }
	catch (std::exception &e) { vp::fail(vp::fmt("serialising %s failed: %s", val_str(v).c_str(), e.what())); }
	c.note("text %s", vp::quote(text, 3000).c_str());
	VP_CHECK(val_same(from_variant(in), v), "serialising changed the variant: %s became %s", val_str(v).c_str(), val_str(from_variant(in)).c_str());
	Variant back;
	try { back = Deserialize(text, SERIALIZE_XMLPLIST); }
	catch (std::exception &e) { vp::fail(vp::fmt("output for %s does not parse (%s): %s", val_str(v).c_str(), e.what(), vp::quote(text, 2000).c_str())); }
	Val b = from_variant(back);
	VP_CHECK(val_equal_roundtrip(v, b, false), "round trip of %s gave %s (text %s), first difference %s", val_str(v).c_str(),
			val_str(b).c_str(), vp::quote(text, 2000).c_str(), val_diff(v, b).c_str());
	std::string again = params.IsNull() ? Serialize(back, SERIALIZE_XMLPLIST) : Serialize(back, SERIALIZE_XMLPLIST, params);
	VP_CHECK(again == text, "serialising the parsed value again gives different text: %s then %s", vp::quote(text, 1500).c_str(), vp::quote(again, 1500).c_str());
	// the same value inside the usual plist root element
	if (c.chance(1, 4)) {
		size_t p = text.find("?>");
		size_t q = text.find("<plist");
		if (p != std::string::npos && q == std::string::npos) {
			std::string t2 = text.substr(0, p + 2) + (c.coin() ? "\n<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"x.dtd\">" : "") +
				"<plist version=\"1.0\">" + text.substr(p + 2) + "</plist>";
			c.note("with root %s", vp::quote(t2, 3000).c_str());
			Val b2;
			try { b2 = from_variant(Deserialize(t2, SERIALIZE_XMLPLIST)); }
			catch (std::exception &e) { vp::fail(vp::fmt("text inside a plist element does not parse (%s): %s", e.what(), vp::quote(t2, 2000).c_str())); }
			VP_CHECK(val_same(b, b2), "the plist element changed the value from %s to %s: %s", val_str(b).c_str(), val_str(b2).c_str(), vp::quote(t2, 2000).c_str());
			c.label("plist root");
		}
	}
	// nor does the way the characters are spelled
	if (c.chance(1, 3) && text.size() < 20000) {
		std::string t2 = respell(c, text);
		if (t2 != text) {
			c.note("respelled %s", vp::quote(t2, 3000).c_str());
			Val b2;
			try { b2 = from_variant(Deserialize(t2, SERIALIZE_XMLPLIST)); }
			catch (std::exception &e) { vp::fail(vp::fmt("text spelled differently does not parse (%s): %s", e.what(), vp::quote(t2, 2000).c_str())); }
			VP_CHECK(val_same(b, b2), "spelled differently the value changes from %s to %s: %s", val_str(b).c_str(), val_str(b2).c_str(), vp::quote(t2, 2000).c_str());
			c.label("respelled");
		}
	}
	// comments and processing instructions between or inside elements change nothing
	if (c.chance(1, 4)) {
		std::string t2;
		size_t k = 0;
		while (k < text.size()) {
			if (text[k] == '<' && k > 0 && text.compare(k, 2, "<?") != 0 && c.chance(1, 4)) t2 += c.coin() ? "<!-- c -->" : "<?p i?>";
			t2 += text[k++];
		}
		if (t2 != text) {
			c.note("with comments %s", vp::quote(t2, 3000).c_str());
			Val b2;
			try { b2 = from_variant(Deserialize(t2, SERIALIZE_XMLPLIST)); }
			catch (std::exception &e) { vp::fail(vp::fmt("text with comments does not parse (%s): %s", e.what(), vp::quote(t2, 2000).c_str())); }
			VP_CHECK(val_same(b, b2), "comments changed the value from %s to %s: %s", val_str(b).c_str(), val_str(b2).c_str(), vp::quote(t2, 2000).c_str());
			c.label("comments inserted");
		}
	}
}

// C09: YAML serialisation round-trips every value.
#include "val.h"
#include <math.h>
using namespace libvariant;
const char *vp_rule = "the value is a container with content or a string/float/blob scalar";

void vp_case(vp::Ctx &c) {
	GenOpt o;
	o.nonfinite = c.chance(1, 3);
	o.blobs = c.chance(1, 2);
	o.nuls = c.chance(1, 8);
	bool rootscalar = c.chance(1, 4);
	Val v = rootscalar ? gen_scalar(c, o) : gen_container(c, o);
	if (c.chance(1, 400)) { Val x = gen_large(c, o.blobs); if (v.t == Val::List) v.l.push_back(x); else if (v.t == Val::Map) v.m["large"] = x; else v = x; c.label("large"); }
	bool invalid = c.chance(1, 20);
	if (invalid) {    // text that is not UTF-8 cannot be represented
		static const char *bad[] = {"\xff", "a\x80", "\xc3", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xe2\x82"};
		std::string s = bad[c.pick(6)];
		if (v.t == Val::List) v.l.push_back(Val::str(s));
		else if (v.t == Val::Map) { if (c.coin()) v.m["bad"] = Val::str(s); else v.m[s] = Val::integer(1); }
		else v = Val::str(s);
	}
	Variant params;
	if (c.chance(2, 3)) {
		params = VariantDefines::MapType;
		static const char *sc[] = {"any", "plain", "single quoted", "double quoted", "literal", "folded"};
		static const char *st[] = {"any", "block", "flow"};
		if (c.chance(1, 3)) params["scalar_style"] = sc[c.pick(6)];
		if (c.chance(1, 3)) params["map_style"] = st[c.pick(3)];
		if (c.chance(1, 3)) params["list_style"] = st[c.pick(3)];
		if (c.chance(1, 4)) params["implicit_document_begin"] = c.coin();
		if (c.chance(1, 4)) params["implicit_document_end"] = c.coin();
		if (c.chance(1, 4)) params["indent"] = (int)c.pick(12);
		if (c.chance(1, 4)) { static const int w[] = {1, 2, 5, 10, 20, 40, 79, 80, 81, 120, 1000, 100000, -1}; params["width"] = w[c.pick(13)]; }
		if (c.chance(1, 4)) params["precision"] = (int)(17 + c.pick(8));
	}
	c.note("value %s", val_str(v).c_str());
	c.note("params %s", params.IsNull() ? "none" : val_str(from_variant(params)).c_str());
	if (val_nodes(v) >= 2 || v.t == Val::Str || v.t == Val::Float || v.t == Val::Blob) c.nontrivial(vp::hashmix(val_hash(v), val_hash(from_variant(params))));
	c.label(invalid ? "not representable" : rootscalar ? "scalar root" : "container root");
	Variant in = to_variant(v);
	std::string text;
	try { text = params.IsNull() ? Serialize(in, SERIALIZE_YAML) : Serialize(in, SERIALIZE_YAML, params); }
	catch (std::exception &e) {
		VP_CHECK(invalid, "serialising %s failed: %s", val_str(v).c_str(), e.what());
		VP_CHECK(val_same(from_variant(in), v), "serialising changed the variant");
		return;
	}
	c.note("text %s", vp::quote(text, 3000).c_str());
	VP_CHECK(val_same(from_variant(in), v), "serialising changed the variant: %s became %s", val_str(v).c_str(), val_str(from_variant(in)).c_str());
	Variant back;
	try { back = Deserialize(text, SERIALIZE_YAML); }
	catch (std::exception &e) { if (invalid) return; vp::fail(vp::fmt("output for %s does not parse (%s): %s", val_str(v).c_str(), e.what(), vp::quote(text, 2000).c_str())); }
	Val b = from_variant(back);
	VP_CHECK(val_equal_roundtrip(v, b, false), "round trip of %s gave %s (text %s), first difference %s", val_str(v).c_str(),
			val_str(b).c_str(), vp::quote(text, 2000).c_str(), val_diff(v, b).c_str());
	std::string again = params.IsNull() ? Serialize(back, SERIALIZE_YAML) : Serialize(back, SERIALIZE_YAML, params);
	VP_CHECK(again == text, "serialising the parsed value again gives different text: %s then %s", vp::quote(text, 1500).c_str(), vp::quote(again, 1500).c_str());
}

// C07: JSON serialisation round-trips under every option.
#include "val.h"
#include "refjson.h"
#include <math.h>
using namespace libvariant;
const char *vp_rule = "the document has at least 3 nodes or contains text/number needing escape or extreme handling";

static Val json_image(const Val &v) {     // what must come back: non-finite becomes null
	Val r = v;
	if (v.t == Val::Float && !isfinite(v.d)) return Val::null();
	for (auto &x : r.l) x = json_image(x);
	for (auto &x : r.m) x.second = json_image(x.second);
	return r;
}
static bool has(const Val &v, bool (*f)(const Val &)) {
	if (f(v)) return true;
	for (auto &x : v.l) if (has(x, f)) return true;
	for (auto &x : v.m) if (has(x.second, f)) return true;
	return false;
}

void vp_case(vp::Ctx &c) {
	GenOpt o;
	o.nonfinite = c.chance(1, 4);
	o.blobs = c.chance(1, 2);
	o.nuls = c.chance(1, 6);
	Val v = gen_container(c, o);
	if (c.chance(1, 400)) { Val x = gen_large(c, o.blobs); if (v.t == Val::List) v.l.push_back(x); else v.m["large"] = x; c.label("large"); }
	// a NUL character followed by the blob tag is how this format spells blobs
	Variant params = VariantDefines::MapType;
	bool pretty = c.coin(), strict = c.chance(1, 3);
	if (pretty) params["pretty"] = true; else if (c.coin()) params["pretty"] = false;
	if (strict) params["strict"] = true;
	int indent = -1, prec = -1;
	if (c.chance(1, 3)) { static const int ind[] = {0, 1, 2, 3, 4, 7, 8, 16, 31, 40, 63, 64, 65, 127, 128, 129, 130, 200, 300}; indent = ind[c.pick(19)]; params["indent"] = indent; }
	if (c.chance(1, 4)) { prec = 17 + (int)c.pick(8); params["precision"] = prec; }
	bool noparams = !pretty && !strict && indent < 0 && prec < 0 && c.coin();
	c.note("value %s", val_str(v).c_str());
	c.note("pretty=%d strict=%d indent=%d precision=%d", pretty, strict, indent, prec);
	Variant in = to_variant(v);
	bool unrep = has(v, [](const Val &x) { return x.t == Val::Blob || (x.t == Val::Float && !isfinite(x.d)); });
	if (val_nodes(v) >= 3) c.nontrivial(vp::hashmix(val_hash(v), pretty + 2 * strict + 4 * indent + 1000 * prec));
	c.label(unrep ? "blob or non-finite" : "plain");
	if (strict) c.label("strict");
	std::string text;
	bool threw = false;
	try {
		text = noparams ? Serialize(in, SERIALIZE_JSON) : Serialize(in, SERIALIZE_JSON, params);
	} catch (std::exception &e) {
		threw = true;
		VP_CHECK(strict && unrep, "serialising %s failed: %s", val_str(v).c_str(), e.what());
	}
	VP_CHECK(val_same(from_variant(in), v), "serialising changed the variant: %s became %s", val_str(v).c_str(), val_str(from_variant(in)).c_str());
	if (strict && unrep) {
		VP_CHECK(threw, "strict mode accepted something JSON cannot represent: %s -> %s", val_str(v).c_str(), text.c_str());
		c.label("strict rejected");
		return;
	}
	c.note("text %s", vp::quote(text).c_str());
	Val img = json_image(v);
	Variant back = Deserialize(text, SERIALIZE_JSON);
	Val b = from_variant(back);
	VP_CHECK(val_equal_roundtrip(img, b, false), "round trip of %s gave %s (text %s), first difference %s", val_str(v).c_str(),
			val_str(b).c_str(), vp::quote(text).c_str(), val_diff(img, b).c_str());
	// independent reader
	RefJson r;
	VP_CHECK(r.parse(text), "output is not JSON (%s): %s", r.why.c_str(), vp::quote(text).c_str());
	VP_CHECK(text.find_first_not_of(" \t\r\n", r.used) == std::string::npos, "output continues after the document: %s", vp::quote(text).c_str());
	Val rv = r.value;
	if (!unrep) {
		VP_CHECK(val_equal_roundtrip(v, rv, false), "output text %s reads as %s, not %s", vp::quote(text).c_str(), val_str(rv).c_str(), val_str(v).c_str());
	} else {
		// blobs are spelled as strings; decode them
		struct D { static void go(const Val &orig, Val &got) {
			if (orig.t == Val::Blob && got.t == Val::Str) {
				std::string tag("\0BLOB", 5), bytes;
				VP_CHECK(got.s.compare(0, 5, tag) == 0, "blob text has no tag");
				VP_CHECK(got.s.substr(5) == ref_base64(orig.s), "blob text is not the base64 of its bytes: %s", vp::quote(got.s).c_str());
				got = Val::blob(orig.s);
			}
			if (orig.t == Val::List && got.t == Val::List) for (size_t i = 0; i < orig.l.size() && i < got.l.size(); ++i) go(orig.l[i], got.l[i]);
			if (orig.t == Val::Map && got.t == Val::Map) for (auto &x : orig.m) if (got.m.count(x.first)) go(x.second, got.m[x.first]);
		} };
		D::go(img, rv);
		VP_CHECK(val_equal_roundtrip(img, rv, false), "output text %s reads as %s, not %s", vp::quote(text).c_str(), val_str(rv).c_str(), val_str(img).c_str());
	}
	// second generation is a fixed point
	std::string again = noparams ? Serialize(back, SERIALIZE_JSON) : Serialize(back, SERIALIZE_JSON, params);
	VP_CHECK(again == text, "serialising the parsed value again gives different text: %s then %s", vp::quote(text).c_str(), vp::quote(again).c_str());
	// pretty printing only inserts white space
	if (pretty) {
		Variant pp = params.Copy();
		pp["pretty"] = false;
		std::string flat = Serialize(in, SERIALIZE_JSON, pp);
		VP_CHECK(flat.find('\n') == std::string::npos, "compact output contains a line break: %s", vp::quote(flat).c_str());
		std::string a, q;
		bool instr = false;
		for (size_t i = 0; i < text.size(); ++i) {
			if (instr) { a += text[i]; if (text[i] == '\\') { a += text[++i]; } else if (text[i] == '"') instr = false; }
			else if (text[i] == '"') { instr = true; a += '"'; }
			else if (text[i] != '\n' && text[i] != ' ') a += text[i];
		}
		instr = false;
		for (size_t i = 0; i < flat.size(); ++i) {
			if (instr) { q += flat[i]; if (flat[i] == '\\') { q += flat[++i]; } else if (flat[i] == '"') instr = false; }
			else if (flat[i] == '"') { instr = true; q += '"'; }
			else if (flat[i] != '\n' && flat[i] != ' ') q += flat[i];
		}
		VP_CHECK(a == q, "pretty output differs from compact output in more than white space");
	}
}

// C21: JSON Diff.
#include "refpatch.h"
#include <Variant/Extensions.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "two documents that differ, at least one of them nested";

static void edit(Ctx &c, Val &d) {
	unsigned n = 0;
	while (n++ < 6 && c.more(2)) {
		string p = gen_pointer(c, d);
		switch (c.pick(4)) {
		case 0: ref_add(d, p, c.chance(1, 3) ? gen_patch_doc(c, 1) : gen_patch_value(c)); break;
		case 1: if (!p.empty()) ref_remove(d, p); break;
		case 2: ref_replace(d, p, c.chance(1, 3) ? gen_patch_doc(c, 1) : gen_patch_value(c)); break;
		default: ref_copy(d, gen_pointer(c, d), p); break;
		}
	}
}
static void scribble(Variant v) {
	if (v.IsMap()) {
		for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) scribble(i->second);
		v.Set("scribble", 1);
	} else if (v.IsList()) {
		for (Variant::ListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) scribble(*i);
		v.Append("scribble");
	} else if (v.IsBlob()) flip_blob(v);
}
static unsigned depth(const Val &v) {
	unsigned d = 0;
	for (auto &x : v.m) d = std::max(d, 1 + depth(x.second));
	for (auto &x : v.l) d = std::max(d, 1 + depth(x));
	return d;
}
void vp_case(Ctx &c) {
	Val a, b;
	if (c.chance(1, 8)) { GenOpt o; a = gen_val(c, o); b = c.coin() ? gen_val(c, o) : a; if (c.coin()) edit(c, b); }
	else { a = gen_patch_doc(c); b = a; if (c.chance(1, 4)) b = gen_patch_doc(c); else edit(c, b); }
	c.note("from %s", val_str(a).c_str());
	c.note("to   %s", val_str(b).c_str());
	Variant va = to_variant(a), vb = to_variant(b);
	Variant d = JSONDiff(va, vb);
	Val dv = from_variant(d);
	c.note("diff %s", val_str(dv).c_str());
	VP_CHECK(val_same(from_variant(va), a), "the source changed to %s", val_str(from_variant(va)).c_str());
	VP_CHECK(val_same(from_variant(vb), b), "the target changed to %s", val_str(from_variant(vb)).c_str());
	VP_CHECK(dv.t == Val::List, "the patch is not a list: %s", val_str(dv).c_str());
	bool equal = val_equal(a, b);
	VP_CHECK(!val_same(a, b) || dv.l.empty(), "the patch of equal documents is %s", val_str(dv).c_str());
	// by the RFC, and through the library
	Val r = a;
	bool ok = ref_patch(r, dv);
	VP_CHECK(ok, "the patch %s cannot be applied", val_str(dv).c_str());
	VP_CHECK(val_equal(r, b), "the patch %s gives %s, not %s", val_str(dv).c_str(), val_str(r).c_str(), val_str(b).c_str());
	unsigned how = c.pick(3);
	if (how == 1) scribble(va);
	if (how == 2) scribble(vb);
	VP_CHECK(how == 0 || val_same(from_variant(d), dv), "changing a document changed the patch to %s", val_str(from_variant(d)).c_str());
	Variant vc = to_variant(a);
	std::pair<bool, string> res = JSONPatch(vc, d);
	VP_CHECK(res.first, "the patch %s is refused: %s", val_str(dv).c_str(), res.second.c_str());
	VP_CHECK(val_equal(from_variant(vc), b), "the patch %s gives %s, not %s", val_str(dv).c_str(), val_str(from_variant(vc)).c_str(), val_str(b).c_str());
	if (how == 0) {
		scribble(d);
		VP_CHECK(val_same(from_variant(va), a) && val_same(from_variant(vb), b), "changing the patch changed a document");
	}
	c.evals(6);
	c.label(equal ? "equal" : a.t == b.t ? "differ" : "differ in root type");
	if (!equal && (depth(a) >= 2 || depth(b) >= 2)) c.nontrivial(vp::hashmix(val_hash(a), val_hash(b)));
}

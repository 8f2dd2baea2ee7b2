// C22: recursive update and difference, flatten and expand.
#include "refpatch.h"
#include <string.h>
#include <Variant/Extensions.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "documents with a map or list below the top, and for update and difference a common key with differing values";

static Val ref_update(const Val &base, const Val &up) {
	if (up.t == Val::Null) return base;
	if (up.t != Val::Map || base.t != Val::Map) return up;
	Val r = base;
	for (auto &x : up.m) {
		auto i = r.m.find(x.first);
		if (i == r.m.end()) r.m[x.first] = x.second;
		else { Val y = ref_update(i->second, x.second); i->second = y; }
	}
	return r;
}
// true if there is a difference to report; a null or empty map in place of something else is not reported
static bool dropped;
static bool ref_diff(const Val &base, const Val &cmp, Val &out) {
	if (cmp.t != Val::Map) { out = cmp; return !val_equal(base, cmp) && cmp.t != Val::Null; }
	if (base.t != Val::Map) { out = cmp; dropped |= cmp.m.empty(); return !cmp.m.empty(); }
	out = Val::map();
	for (auto &x : cmp.m) {
		auto i = base.m.find(x.first);
		if (i == base.m.end()) { out.m[x.first] = x.second; continue; }
		if (val_equal(i->second, x.second)) continue;
		Val d;
		if (ref_diff(i->second, x.second, d)) out.m[x.first] = d;
	}
	return !out.m.empty();
}
struct Params { string pp, pd = "/", ip = "[", is = "]", ld = ","; bool whole = true; };
static bool simple(const Val &v) {
	for (auto &x : v.l) if (x.t == Val::Map || x.t == Val::List) return false;
	return true;
}
static void ref_flat(std::map<string, Val> &out, const Val &v, const Params &p, const string &at, bool root) {
	if (v.t == Val::List && (p.whole || !simple(v))) {
		for (size_t i = 0; i < v.l.size(); ++i) ref_flat(out, v.l[i], p, at + p.ip + vp::fmt("%zu", i) + p.is, false);
	} else if (v.t == Val::Map) {
		for (auto &x : v.m) ref_flat(out, x.second, p, root ? p.pp + x.first : at + p.pd + x.first, false);
	} else out[at] = v;
}
static Val gen_doc(Ctx &c, unsigned depth, bool plain) {
	if (depth >= 4 || (depth > 0 && c.chance(1, 2))) return gen_patch_value(c);
	Val v = c.chance(2, 3) ? Val::map() : Val::list();
	unsigned n = 0;
	static const std::vector<string> pk = {"a", "b", "c", "10", "0", "x y", "k1", "\xc3\xa9", "-1"}, fk = {"a", "b", "c", "a/b", "[0]", "a[1]", "k\\", "/", ".", "a.b", "#", " "};
	if (depth < 2 && c.chance(1, 100)) {                     // wide
		unsigned k = 50 + c.pick(200), kind = c.pick(3);
		for (unsigned i = 0; i < k; ++i) {
			Val e = Val::integer(i);
			if (kind == 1) { e = Val::list(); e.l.push_back(Val::integer(i)); } else if (kind == 2) { e = Val::map(); e.m["a"] = Val::integer(i); }
			if (v.t == Val::List) v.l.push_back(e); else v.m[vp::fmt("w%u", i)] = e;
		}
		return v;
	}
	if (v.t == Val::List) while (n++ < 13 && c.more(depth == 0 && c.chance(1, 20) ? 12 : 2)) v.l.push_back(gen_doc(c, depth + 1, plain));
	else while (n++ < 6 && c.more(2)) v.m[c.oneof(plain ? pk : fk)] = gen_doc(c, depth + 1, plain);
	if (plain && v.m.empty() && v.l.empty()) return gen_patch_value(c);
	return v;
}
static bool nested(const Val &v) {
	for (auto &x : v.m) if (x.second.t == Val::Map || x.second.t == Val::List) return true;
	for (auto &x : v.l) if (x.t == Val::Map || x.t == Val::List) return true;
	return false;
}
static bool conflict(const Val &a, const Val &b) {
	if (a.t != Val::Map || b.t != Val::Map) return false;
	for (auto &x : a.m) { auto i = b.m.find(x.first); if (i != b.m.end() && !val_equal(x.second, i->second)) return true; }
	return false;
}
static void edit(Ctx &c, Val &d) {
	unsigned n = 0;
	while (n++ < 6 && c.more(2)) {
		string p = gen_pointer(c, d);
		switch (c.pick(3)) {
		case 0: ref_add(d, p, c.chance(1, 3) ? gen_patch_doc(c, 1) : gen_patch_value(c)); break;
		case 1: if (!p.empty()) ref_remove(d, p); break;
		default: ref_replace(d, p, c.chance(1, 3) ? gen_patch_doc(c, 1) : gen_patch_value(c)); break;
		}
	}
}
static void scribble(Variant v) {
	if (v.IsMap()) {
		for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) scribble(i->second);
		v.Set("scribble", 1);
	} else if (v.IsList()) {
		for (Variant::ListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) scribble(*i);
		v.Append("scribble");
	} else if (v.IsBlob()) flip_blob(v);
}
#define SAME(v, w, what) do { Val g_ = from_variant(v), w_ = w; VP_CHECK(val_same(g_, w_), "%s is %s, not %s", what, val_str(g_).c_str(), val_str(w_).c_str()); c.evals(1); } while (0)

static void update(Ctx &c) {
	Val a = gen_patch_doc(c), b = a;
	if (c.coin()) b = gen_patch_doc(c); else edit(c, b);
	if (c.chance(1, 12)) a = gen_patch_value(c);
	if (c.chance(1, 12)) b = gen_patch_value(c);
	c.note("base %s", val_str(a).c_str());
	c.note("with %s", val_str(b).c_str());
	Variant va = to_variant(a), vb = to_variant(b);
	Val want = ref_update(a, b);
	RUpdate(va, vb);
	SAME(va, want, "the updated document");
	SAME(vb, b, "the second document after updating");
	RUpdate(va, vb);
	SAME(va, want, "the document updated twice");
	if (c.coin()) { scribble(va); SAME(vb, b, "the second document after changing the updated one"); }
	else { scribble(vb); SAME(va, want, "the updated document after changing the second one"); }
	c.label("update");
	if (conflict(a, b) && (nested(a) || nested(b))) c.nontrivial(vp::hashmix(val_hash(a), val_hash(b)));
}
static void diff(Ctx &c) {
	Val a = gen_patch_doc(c), b = a;
	if (c.chance(1, 3)) b = gen_patch_doc(c); else edit(c, b);
	if (c.chance(1, 12)) a = gen_patch_value(c);
	if (c.chance(1, 12)) b = gen_patch_value(c);
	c.note("base    %s", val_str(a).c_str());
	c.note("compare %s", val_str(b).c_str());
	Variant va = to_variant(a), vb = to_variant(b);
	Variant d = RDiff(va, vb);
	SAME(va, a, "the base document after the difference");
	SAME(vb, b, "the compared document after the difference");
	Val want;
	dropped = false;
	bool any = ref_diff(a, b, want);
	if (!any) {      // nothing to report: an empty map, or the null compared with
		Val g = from_variant(d);
		VP_CHECK((g.t == Val::Map && g.m.empty()) || (g.t == Val::Null && b.t == Val::Null && a.t != Val::Null), "the difference is %s", val_str(g).c_str());
	} else SAME(d, want, "the difference");
	if (val_same(a, b)) VP_CHECK(!any, "oracle");
	if (a.t == Val::Map && b.t == Val::Map && any && !dropped) {
		// updating the base with the difference is updating it with the compared document, but for nulls and emptied maps
		Variant x = va.Copy(), y = va.Copy();
		RUpdate(x, d);
		RUpdate(y, vb);
		VP_CHECK(x == y, "update with the difference gives %s, with the document %s", val_str(from_variant(x)).c_str(), val_str(from_variant(y)).c_str());
	}
	if (any) {
		if (c.coin()) { scribble(d); SAME(vb, b, "the compared document after changing the difference"); SAME(va, a, "the base after changing the difference"); }
		else { scribble(vb); scribble(va); SAME(d, want, "the difference after changing the documents"); }
	}
	c.label("difference");
	if (conflict(a, b) && (nested(a) || nested(b))) c.nontrivial(vp::hashmix(vp::hashmix(val_hash(a), val_hash(b)), 1));
}
static string onechar(Ctx &c, const char *from) { return string(1, from[c.pick(strlen(from))]); }
static void flatten(Ctx &c) {
	bool plain = c.chance(3, 5);
	Val a = gen_doc(c, 0, plain);
	Params p;
	Variant vp_ = Variant();
	bool standard = c.coin();
	if (!standard) {
		if (c.coin()) { p.pp = c.coin() ? "" : onechar(c, "/.$"); vp_["pathPrefix"] = p.pp; }
		if (c.coin()) { p.pd = onechar(c, "/.:|"); vp_["pathDelimiter"] = p.pd; }
		if (c.coin()) { p.ip = onechar(c, "[(.#"); vp_["indexPrefix"] = p.ip; }
		if (c.coin()) { p.is = c.coin() ? "" : onechar(c, "])#"); vp_["indexSuffix"] = p.is; }
		if (c.coin()) { p.ld = onechar(c, ",; "); vp_["listDelimiter"] = p.ld; }
		if (c.coin()) { p.whole = c.coin(); vp_["noSimpleLists"] = p.whole; }
	}
	c.note("document %s", val_str(a).c_str());
	if (!vp_.IsNull()) c.note("parameters %s", val_str(from_variant(vp_)).c_str());
	ExtensionParams(vp_);
	Val pv = Val::map();
	pv.m["pathPrefix"] = Val::str(p.pp); pv.m["pathDelimiter"] = Val::str(p.pd); pv.m["indexPrefix"] = Val::str(p.ip);
	pv.m["indexSuffix"] = Val::str(p.is); pv.m["listDelimiter"] = Val::str(p.ld); pv.m["noSimpleLists"] = Val::boolean(p.whole);
	SAME(vp_, pv, "the completed parameter map");
	std::map<string, Val> want;
	ref_flat(want, a, p, "", true);
	Variant va = to_variant(a);
	bool dflt = standard && c.coin();
	Variant f = dflt ? FlattenPath(va) : FlattenPath(va, vp_);
	Val wf;
	if (a.t != Val::Map && a.t != Val::List) wf = a;
	else if (a.t == Val::List && !p.whole && simple(a)) wf = a;
	else if (!want.empty()) { wf = Val::map(); wf.m = want; }
	else wf = Val::null();
	Val gf = from_variant(f);
	if (want.empty() && gf.t == Val::Map && gf.m.empty()) ;
	else VP_CHECK(val_same(gf, wf), "flattened document is %s, not %s", val_str(gf).c_str(), val_str(wf).c_str());
	SAME(va, a, "the document after flattening");
	SAME(vp_, pv, "the parameter map after flattening");
	c.evals(1);
	c.label("flatten");
	if (nested(a)) c.nontrivial(vp::hashmix(vp::hashmix(val_hash(a), val_hash(pv)), 2));
	// as texts
	if (wf.t == Val::Map) {
		bool ok = true, want_ok = true;
		std::map<string, string> wm, gm;
		try {
			for (auto &x : wf.m) {
				if (x.second.t == Val::Blob) { want_ok = false; break; }
				Variant y = to_variant(x.second);
				if (x.second.t == Val::List) {
					string s;
					for (unsigned i = 0; i < y.Size(); ++i) { if (i) s += p.ld; s += y[i].AsString(); }
					wm[x.first] = s;
				} else wm[x.first] = y.AsString();
			}
		} catch (const std::exception &) { want_ok = false; }
		try { gm = dflt ? FlattenPathToStrStrMap(va) : FlattenPathToStrStrMap(va, vp_); } catch (const std::exception &) { ok = false; }
		VP_CHECK(ok == want_ok, "flattening to texts %s", ok ? "succeeds" : "fails");
		if (ok) {
			for (auto &x : wm) VP_CHECK(gm.count(x.first) && gm[x.first] == x.second, "text of %s is %s, not %s", x.first.c_str(), vp::quote(gm[x.first]).c_str(), vp::quote(x.second).c_str());
			VP_CHECK(gm.size() == wm.size(), "%zu texts instead of %zu", gm.size(), wm.size());
		}
		c.evals(1);
	}
	// and back
	if (plain && p.pp.empty() && p.ip == "[" && p.is == "]" && (wf.t == Val::Map)) {
		Variant x = dflt ? ExpandPath(f) : ExpandPath(f, vp_);
		SAME(x, a, "the document flattened and expanded");
		SAME(f, wf, "the flattened document after expanding");
		c.label("expand");
		if (c.coin()) {      // onto an existing document
			Variant y = Variant().Set("keep", 1);
			if (a.t == Val::Map && !a.m.count("keep")) {
				if (dflt) ExpandPathTo(y, f); else ExpandPathTo(y, f, vp_);
				Val k = a;
				k.m["keep"] = Val::integer(1);
				SAME(y, k, "the document expanded into another");
			}
		}
	}
}
static void badparams(Ctx &c) {
	static const char *k[] = {"pathPrefix", "pathDelimiter", "indexPrefix", "indexSuffix", "listDelimiter"};
	unsigned w = c.pick(5);
	Variant v;
	unsigned how = c.pick(3);
	string name = k[w];
	bool may_be_empty = w == 0 || w == 3;
	if (how == 0) v[name] = c.coin() ? "ab" : "///";
	else if (how == 1 && !may_be_empty) v[name] = "";
	else if (c.coin()) v[name] = 5;
	else v[name] = Variant::MapType;
	c.note("parameters %s", val_str(from_variant(v)).c_str());
	bool threw = false;
	try { ExtensionParams(v); } catch (const std::exception &) { threw = true; }
	VP_CHECK(threw, "invalid parameters are accepted as %s", val_str(from_variant(v)).c_str());
	c.evals(1);
	c.label("invalid parameters");
}
void vp_case(Ctx &c) {
	switch (c.weighted({8, 8, 12, 1})) {
	case 0: update(c); break;
	case 1: diff(c); break;
	case 2: flatten(c); break;
	default: badparams(c); break;
	}
}

// C20: JSON Patch.
#include "refpatch.h"
#include <Variant/Extensions.h>
#include <Variant/Path.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "a patch of two or more operations, at least one of which changes the document before the last one is reached";

static Val gen_op(Ctx &c, const Val &doc, bool fail) {
	Val op = Val::map();
	static const char *names[] = {"add", "remove", "replace", "move", "copy", "test"};
	// a few attempts at one with the wanted outcome
	for (int k = 0; k < 6; ++k) {
		unsigned o = c.pick(6);
		op = Val::map();
		op.m["op"] = Val::str(names[o]);
		op.m["path"] = Val::str(gen_pointer(c, doc));
		if (o == 3 || o == 4) op.m["from"] = Val::str(gen_pointer(c, doc));
		if (o == 0 || o == 2) op.m["value"] = c.chance(1, 3) ? gen_patch_doc(c, 1) : gen_patch_value(c);
		if (o == 5) {
			Tokens t;
			bool d;
			Val dd = doc, *f = ptr_parse(op.m["path"].s, t, d) ? ptr_find(dd, t) : 0;
			op.m["value"] = f && !c.chance(1, 4) ? *f : gen_patch_value(c);
		}
		if (c.chance(1, 20)) op.m["comment"] = gen_patch_value(c);
		Val x = doc;
		if (ref_patch_op(x, op) != fail) break;
	}
	if (fail && c.chance(1, 4)) {
		switch (c.pick(8)) {
		case 0: op.m.erase("op"); break;
		case 1: op.m.erase("path"); break;
		case 2: op.m["op"] = Val::str("value"); break;
		case 3: op.m["op"] = Val::str(c.oneof(std::vector<string>{"", "Add", "addx", "ad", "get", "tests", "copy "})); break;
		case 4: op.m["path"] = c.coin() ? Val::integer(3) : gen_patch_doc(c, 0); break;
		case 5: if (op.m.count("value")) op.m.erase("value"); else op.m.erase("from"); break;
		case 6: op = c.coin() ? gen_patch_value(c) : Val::list(); break;
		default: op.m["op"] = c.coin() ? Val::integer(1) : Val::list(); break;
		}
	}
	return op;
}
static bool open_op(const Val &op) {
	if (op.t != Val::Map) return false;
	for (const char *k : {"path", "from"}) {
		auto i = op.m.find(k);
		if (i == op.m.end() || i->second.t != Val::Str) continue;
		Tokens t;
		bool d = false;
		ptr_parse(i->second.s, t, d);
		if (d) return true;
	}
	return false;
}
// change every value inside v, through one handle
static void scribble(Variant v) {
	if (v.IsMap()) {
		for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) scribble(i->second);
		v.Set("scribble", 1);
	} else if (v.IsList()) {
		for (Variant::ListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) scribble(*i);
		v.Append("scribble");
	} else if (v.IsBlob()) flip_blob(v);
}
static Val *first_container(Val &v, Tokens &t, Ctx &c) {
	if (v.t == Val::Map) for (auto &x : v.m) if ((x.second.t == Val::Map || x.second.t == Val::List) && c.coin()) { t.push_back(x.first); return first_container(x.second, t, c); }
	if (v.t == Val::List) for (size_t i = 0; i < v.l.size(); ++i) if ((v.l[i].t == Val::Map || v.l[i].t == Val::List) && c.coin()) { t.push_back(vp::fmt("%zu", i)); return first_container(v.l[i], t, c); }
	return &v;
}
void vp_case(Ctx &c) {
	Val doc = gen_patch_doc(c), at = doc;
	Val ops = Val::list();
	bool ends_badly = c.chance(2, 5), changed = false;
	unsigned n = 0;
	c.note("document %s", val_str(doc).c_str());
	while (n++ < 10 && c.more(4)) {
		Val op = gen_op(c, at, false);
		Val x = at;
		if (!ref_patch_op(x, op)) break;
		if (!val_same(x, at)) changed = true;
		at = x;
		ops.l.push_back(op);
	}
	if (ends_badly) {
		ops.l.push_back(gen_op(c, at, true));
		if (c.coin()) ops.l.push_back(gen_op(c, at, false));
	}
	if (ops.l.size() == 1 && c.chance(1, 3)) { Val o = ops.l[0]; ops = o; }
	c.note("patch %s", val_str(ops).c_str());
	bool open = open_op(ops);
	if (ops.t == Val::List) for (auto &o : ops.l) if (open_op(o)) open = true;
	Val want = doc;
	bool ok = ref_patch(want, ops);
	Variant v = to_variant(doc), p = to_variant(ops);
	std::pair<bool, string> r;
	try { r = JSONPatch(v, p); }
	catch (const std::exception &e) { vp::fail(vp::fmt("JSONPatch threw: %s", e.what())); }
	Val got = from_variant(v);
	if (open && !r.first) { ok = false; want = doc; }      // an invalid escape may be refused
	VP_CHECK(r.first == ok, "patch %s: %s", ok ? "refused" : "accepted", r.second.c_str());
	VP_CHECK(val_same(got, want), "%s document is %s, not %s", ok ? "patched" : "refused patch:", val_str(got).c_str(), val_str(want).c_str());
	VP_CHECK(val_same(from_variant(p), ops), "applying changed the patch to %s", val_str(from_variant(p)).c_str());
	c.evals(3);
	c.label(ok ? "applied" : "refused");
	// the document has nothing in common with the patch, and no part of it with another part
	switch (c.pick(3)) {
	case 0:
		scribble(v);
		VP_CHECK(val_same(from_variant(p), ops), "changing the patched document changed the patch to %s", val_str(from_variant(p)).c_str());
		break;
	case 1:
		scribble(p);
		VP_CHECK(val_same(from_variant(v), want), "changing the patch changed the patched document to %s", val_str(from_variant(v)).c_str());
		break;
	default: {
		Tokens t;
		Val *f = first_container(want, t, c);
		if (f->t != Val::Map && f->t != Val::List) break;
		Variant part = JSONPointerLookup(ptr_form(t), v);
		if (f->t == Val::Map) { f->m["new"] = Val::integer(1); part.Set("new", 1); }
		else { f->l.push_back(Val::integer(1)); part.Append(1); }
		VP_CHECK(val_same(from_variant(v), want), "changing only %s of the patched document gives %s, not %s", vp::quote(ptr_form(t)).c_str(), val_str(from_variant(v)).c_str(), val_str(want).c_str());
	}
	}
	c.evals(1);
	if (changed && ops.t == Val::List && ops.l.size() >= 2) c.nontrivial(vp::hashmix(val_hash(doc), val_hash(ops)));
}

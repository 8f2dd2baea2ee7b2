// C19: JSON Pointer operations.
#include "refpatch.h"
#include "core.h"
#include <Variant/Extensions.h>
#include <Variant/Path.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "at least one operation with a pointer of two or more tokens";

static bool doubtful(const string &p) { Tokens t; bool d = false; ptr_parse(p, t, d); return d; }

static void forming(Ctx &c) {
	Path path;
	Tokens t;
	Val doc, *at = &doc;
	Val leaf = Val::integer(7);
	GenOpt o;
	unsigned n = 0;
	while (n++ < 8 && c.more(3)) {
		if (c.coin()) {
			string k = c.coin() ? gen_key(c, o) : c.oneof(std::vector<string>{"~", "/", "~0", "~1", "", "a/b", "a~b", "~~//", "0", "-"});
			path.push_back(PathElement(k)); t.push_back(k);
			*at = Val::map(); at->m["other"] = Val::integer(1);
			at = &at->m[k];
		} else {
			unsigned k = c.pick(4);
			path.push_back(PathElement(k)); t.push_back(vp::fmt("%u", k));
			*at = Val::list(); at->l.resize(k + 1 + c.pick(2));
			at = &at->l[k];
		}
	}
	*at = leaf;
	string got = FormJSONPointer(path), want = ptr_form(t);
	c.note("path %s", vp::quote(PathString(path)).c_str());
	VP_CHECK(got == want, "pointer text of %s is %s, not %s", vp::quote(PathString(path)).c_str(), vp::quote(got).c_str(), vp::quote(want).c_str());
	Variant d = to_variant(doc);
	Val x = from_variant(JSONPointerLookup(got, d));
	VP_CHECK(val_same(x, leaf), "looking up the formed pointer %s gives %s", vp::quote(got).c_str(), val_str(x).c_str());
	VP_CHECK(val_same(from_variant(d), doc), "looking up changed the document");
	c.label("forming");
	c.evals(2);
	if (t.size() >= 2) c.nontrivial(vp::hash64(want));
}
void vp_case(Ctx &c) {
	if (c.chance(1, 5)) { forming(c); return; }
	Val doc = gen_patch_doc(c);
	Variant v = to_variant(doc);
	c.note("document %s", val_str(doc).c_str());
	unsigned n = 0;
	uint64_t h = val_hash(doc);
	bool deep = false;
	do {
		Val before = doc;
		string p = gen_pointer(c, doc), from;
		Val x = c.chance(1, 4) ? gen_patch_doc(c, 1) : gen_patch_value(c);
		unsigned op = c.pick(6);
		if (op >= 4) from = gen_pointer(c, doc);
		static const char *names[] = {"lookup", "add", "remove", "replace", "move", "copy"};
		string what = vp::fmt("%s %s%s%s", names[op], op >= 4 ? (vp::quote(from) + " to ").c_str() : "", vp::quote(p).c_str(), op == 1 || op == 3 ? (" value " + val_str(x)).c_str() : "");
		c.note_s(what);
		bool open = doubtful(p) || doubtful(from), want = true, got = true;
		string why;
		if (p.find('/', 1) != string::npos) deep = true;
		h = vp::hashmix(h, vp::hash64(what));
		Tokens t;
		bool d;
		try {
			switch (op) {
			case 0: {
				Val *f = ptr_parse(p, t, d) ? ptr_find(doc, t) : 0;
				want = f != 0;
				VariantRef r = JSONPointerLookup(p, v);
				got = r.Exists();
				if (got && want) VP_CHECK(val_same(from_variant(r), *f), "%s in %s gives %s, not %s", what.c_str(), val_str(doc).c_str(), val_str(from_variant(r)).c_str(), val_str(*f).c_str());
				if (got && want && !open && c.chance(1, 3)) {       // the reference designates the place
					r = to_variant(x);
					*ptr_find(doc, t) = x;
				}
				break;
			}
			case 1: want = ref_add(doc, p, x); JSONPointerAdd(p, v, to_variant(x)); break;
			case 2: want = ref_remove(doc, p); JSONPointerRemove(p, v); break;
			case 3: want = ref_replace(doc, p, x); JSONPointerReplace(p, v, to_variant(x)); break;
			case 4: want = ref_move(doc, from, p); JSONPointerMove(from, p, v); break;
			default: want = ref_copy(doc, from, p); JSONPointerCopy(from, p, v); break;
			}
		} catch (const std::exception &e) { got = false; why = e.what(); }
		c.label(string(names[op]) + (want ? "" : " failing"));
		Val after = from_variant(v);
		if (open && !got) {      // may be refused, but not taken for something else
			doc = before;
			VP_CHECK(val_same(after, doc), "%s in %s fails and leaves %s", what.c_str(), val_str(before).c_str(), val_str(after).c_str());
		} else {
			VP_CHECK(got == want, "%s in %s %s, but must %s%s", what.c_str(), val_str(before).c_str(), got ? "succeeds" : "fails", want ? "succeed: " : "fail", why.c_str());
			VP_CHECK(val_same(after, doc), "%s in %s gives %s, not %s", what.c_str(), val_str(before).c_str(), val_str(after).c_str(), val_str(doc).c_str());
		}
		c.evals(1);
	} while (n++ < 12 && c.more(4) && (doc.t == Val::Map || doc.t == Val::List));
	if (deep) c.nontrivial(h);
}

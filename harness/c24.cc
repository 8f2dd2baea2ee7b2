// C24: filling in schema defaults.
#include "refschema.h"
#include <Variant/Schema.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "a default is filled in below the top level, or a default stands where a value is present";

struct Slot { bool exists; Val v; };
static const Val *root_schema;
static bool filled_deep, met_present, gap;
static unsigned order;                         // in which the combinators are visited

static const Val *resolve(const string &r) {
	if (r == "#") return root_schema;
	string pre = "#/definitions/";
	if (r.compare(0, pre.size(), pre)) return 0;
	auto i = root_schema->m.find("definitions");
	if (i == root_schema->m.end()) return 0;
	auto j = i->second.m.find(r.substr(pre.size()));
	return j == i->second.m.end() ? 0 : &j->second;
}
static void fill(const Val &s, Slot &d, unsigned depth) {
	if (s.t != Val::Map) return;
	auto has = [&](const char *k) -> const Val * { auto i = s.m.find(k); return i == s.m.end() ? 0 : &i->second; };
	const Val *k;
	if ((k = has("$ref"))) fill(*resolve(k->s), d, depth);
	if ((k = has("default"))) {
		if (!d.exists || d.v.t == Val::Null) { d.v = *k; d.exists = true; if (depth) filled_deep = true; }
		else met_present = true;
	}
	if ((k = has("properties")) && (!d.exists || d.v.t == Val::Map)) for (auto &p : k->m) {
		Slot x;
		x.exists = d.exists && d.v.m.count(p.first);
		if (x.exists) x.v = d.v.m[p.first];
		fill(p.second, x, depth + 1);
		if (x.exists) { if (!d.exists) { d.exists = true; d.v = Val::map(); } d.v.m[p.first] = x.v; }
	}
	if ((k = has("items")) && (!d.exists || d.v.t == Val::List)) {
		std::vector<const Val *> each;
		if (k->t == Val::List) for (auto &x : k->l) each.push_back(&x); else each.push_back(k);
		for (size_t i = 0; i < each.size(); ++i) {
			Slot x;
			x.exists = d.exists && i < d.v.l.size();
			if (x.exists) x.v = d.v.l[i];
			fill(*each[i], x, depth + 1);
			if (x.exists) { if (!d.exists) { d.exists = true; d.v = Val::list(); } if (d.v.l.size() < i) gap = true; if (d.v.l.size() <= i) d.v.l.resize(i + 1); d.v.l[i] = x.v; }
		}
	}
	static const char *const orders[6][3] = {{"allOf", "oneOf", "anyOf"}, {"allOf", "anyOf", "oneOf"}, {"oneOf", "allOf", "anyOf"}, {"oneOf", "anyOf", "allOf"}, {"anyOf", "allOf", "oneOf"}, {"anyOf", "oneOf", "allOf"}};
	for (const char *w : orders[order]) if ((k = has(w))) for (auto &x : k->l) fill(x, d, depth);
}
static Val value(Ctx &c, unsigned depth) {
	switch (depth >= 3 ? c.pick(3) : c.pick(6)) {
	case 0: return Val::integer(c.pick(5));
	case 1: return Val::str(c.coin() ? "x" : "");
	case 2: return Val::boolean(c.coin());
	case 3: if (depth < 2 && c.chance(1, 40)) {              // long
			Val v = Val::list(), e = Val::map();
			e.m["a"] = value(c, depth + 2);
			v.l.assign(30 + c.pick(120), c.coin() ? Val::map() : e);
			if (c.coin()) v.l[c.pick(v.l.size())] = value(c, depth + 2);
			return v;
		}
		{ Val v = Val::list(); while (v.l.size() < 3 && c.coin()) v.l.push_back(value(c, depth + 1)); return v; }
	case 4: if (c.chance(1, 4)) return Val::null();
	default: { Val v = Val::map(); while (v.m.size() < 4 && c.more(1)) v.m[string(1, "abcd"[c.pick(4)])] = value(c, depth + 1); if (c.chance(1, 10)) v.m[c.coin() ? "id" : "$ref"] = Val::str("x/../y"); return v; }
	}
}
struct Mode { bool circular, alternatives; unsigned defs; };
static Val schema(Ctx &c, const Mode &m, unsigned depth, unsigned usable) {
	Val s = Val::map();
	if (depth && (m.circular || usable) && c.chance(1, 5)) {
		unsigned k = m.circular ? c.pick(m.defs + 1) : c.pick(usable);
		s.m["$ref"] = Val::str(m.circular && k == m.defs ? "#" : vp::fmt("#/definitions/d%u", k));
		return s;
	}
	if (c.chance(2, 5)) s.m["default"] = value(c, 0);
	if (depth < 4) {
		if (c.chance(1, 2)) { Val p = Val::map(); do p.m[c.chance(1, 12) ? (c.coin() ? "default" : "enum") : string(1, "abcd"[c.pick(4)])] = schema(c, m, depth + 1, usable); while (p.m.size() < 4 && c.more(1)); s.m["properties"] = p; }
		if (c.chance(1, 6)) { Val l = Val::list(); do l.l.push_back(schema(c, m, depth + 1, usable)); while (l.l.size() < 3 && c.coin()); s.m["items"] = l; }
		else if (c.chance(1, 10)) s.m["items"] = schema(c, m, depth + 1, usable);
		if (c.chance(1, 60)) { Val p = Val::map(), e = schema(c, m, 4, usable); for (unsigned i = 0, n = 20 + c.pick(80); i < n; ++i) { p.m[vp::fmt("w%u", i)] = e; if (e.m.count("default") && i % 2) p.m[vp::fmt("w%u", i)].m["default"] = Val::integer(i); } s.m["properties"] = p; }
		if (c.chance(1, 8)) { Val l = Val::list(); do l.l.push_back(schema(c, m, depth + 1, usable)); while (l.l.size() < 3 && c.coin()); s.m["allOf"] = l; }
		if (m.alternatives && c.chance(1, 6)) { Val l = Val::list(); do l.l.push_back(schema(c, m, depth + 1, usable)); while (l.l.size() < 3 && c.coin()); s.m[c.coin() ? "anyOf" : "oneOf"] = l; }
		if (c.chance(1, 12)) s.m[c.coin() ? "additionalProperties" : "not"] = schema(c, m, depth + 1, usable);
	}
	if (c.chance(1, 8)) s.m["type"] = Val::str("object");
	if (c.chance(1, 12)) { s.m["enum"] = Val::list(); s.m["enum"].l.push_back(value(c, 1)); }
	return s;
}
// everything that was there is still there
static bool kept(const Val &a, const Val &b) {
	if (a.t == Val::Null) return true;
	if (a.t != b.t) return false;
	if (a.t == Val::Map) { for (auto &x : a.m) { auto i = b.m.find(x.first); if (i == b.m.end() || !kept(x.second, i->second)) return false; } return true; }
	if (a.t == Val::List) { if (b.l.size() < a.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!kept(a.l[i], b.l[i])) return false; return true; }
	return val_same(a, b);
}
static bool hasnull(const Val &v) {
	if (v.t == Val::Null) return true;
	for (auto &x : v.m) if (hasnull(x.second)) return true;
	for (auto &x : v.l) if (hasnull(x)) return true;
	return false;
}
static void scribble(Variant v) {
	if (v.IsMap()) {
		for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) scribble(i->second);
		v.Set("scribble", 1);
	} else if (v.IsList()) {
		for (Variant::ListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) scribble(*i);
		v.Append("scribble");
	} else if (v.IsBlob()) flip_blob(v);
}
void vp_case(Ctx &c) {
	Mode m;
	m.circular = c.chance(1, 5);
	m.alternatives = c.chance(1, 6);
	m.defs = c.coin() ? 0 : 1 + c.pick(3);
	Val s;
	Val defs = Val::map();
	for (unsigned i = 0; i < m.defs; ++i) defs.m[vp::fmt("d%u", i)] = schema(c, m, 1, i);
	s = schema(c, m, 0, m.defs);
	if (m.defs) s.m["definitions"] = defs;
	Val x = c.chance(1, 6) ? value(c, 0) : value(c, 0);
	if (x.t != Val::Map && !c.chance(1, 4)) { Val y = Val::map(); y.m["a"] = x; x = y; }
	c.note("schema   %s", val_str(s).c_str());
	c.note("instance %s", val_str(x).c_str());
	Variant vs = to_variant(s), vx = to_variant(x);
	string why;
	bool threw = false;
	try { AddSchemaDefaults(vs, vx); } catch (const std::exception &e) { threw = true; why = e.what(); }
	VP_CHECK(!threw, "throws: %s", why.c_str());
	Val after = from_variant(vx);
	VP_CHECK(val_same(from_variant(vs), s), "the schema changed to %s", val_str(from_variant(vs)).c_str());
	VP_CHECK(kept(x, after), "something present was changed: %s", val_str(after).c_str());
	c.evals(2);
	filled_deep = met_present = gap = false;
	if (!m.circular) {
		root_schema = &s;
		bool found = false;
		Val want;
		// where alternatives offer different defaults for the same place it is open which comes first
		for (order = 0; order < (m.alternatives ? 6 : 1) && !found; ++order) {
			Slot d = {true, x};
			fill(s, d, 0);
			found = val_same(after, d.v);
			if (!order) want = d.v;
		}
		VP_CHECK(found, "filled in: %s, not %s", val_str(after).c_str(), val_str(want).c_str());
		c.evals(1);
	}
	if (!m.circular && !m.alternatives && !gap && !hasnull(s) && !hasnull(after) && !hasnull(x)) {
		AddSchemaDefaults(vs, vx);
		VP_CHECK(val_same(from_variant(vx), after), "filling in again changed %s to %s", val_str(after).c_str(), val_str(from_variant(vx)).c_str());
		c.evals(1);
	}
	after = from_variant(vx);
	if (c.coin()) { scribble(vx); VP_CHECK(val_same(from_variant(vs), s), "changing the instance changed the schema to %s", val_str(from_variant(vs)).c_str()); }
	else { scribble(vs); VP_CHECK(val_same(from_variant(vx), after), "changing the schema changed the instance to %s", val_str(from_variant(vx)).c_str()); }
	c.evals(1);
	c.label(m.circular ? "circular references" : m.alternatives ? "alternatives" : "exact");
	if (filled_deep || met_present) c.nontrivial(vp::hashmix(val_hash(s), val_hash(x)));
}

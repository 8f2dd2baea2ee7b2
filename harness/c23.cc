// C23: schema validation verdicts.
#include "refschema.h"
#include <Variant/Schema.h>
#include <Variant/Path.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "a schema with at least two constraining keywords whose verdict on the instance the specification settles";

static unsigned keywords(const Val &s) {
	unsigned n = 0;
	if (s.t == Val::Map) { n += s.m.size(); for (auto &x : s.m) n += x.first == "enum" || x.first == "default" ? 0 : keywords(x.second); }
	if (s.t == Val::List) for (auto &x : s.l) n += keywords(x);
	return n;
}
static const Val *step(const Val *v, const PathElement &e) {
	if (!v) return 0;
	if (e.IsString() && v->t == Val::Map) { auto i = v->m.find(e.AsString()); return i == v->m.end() ? 0 : &i->second; }
	if (e.IsNumber() && v->t == Val::List && e.AsUnsigned() < v->l.size()) return &v->l[e.AsUnsigned()];
	return 0;
}
static const Val *walk(const Val &v, const Path &p, size_t n) {
	const Val *x = &v;
	for (size_t i = 0; i < n && x; ++i) x = step(x, p[i]);
	return x;
}
// the innermost schema the path leads into, and the keyword blamed there
static const Val *innermost(const Val &schema, const Path &p, string &keyword) {
	const Val *s = &schema;
	size_t i = 0;
	keyword.clear();
	while (i < p.size()) {
		if (!p[i].IsString() || s->t != Val::Map) return 0;
		string k = p[i].AsString();
		const Val *v = step(s, p[i]);
		if (!v) { keyword = k; return s; }
		size_t left = p.size() - i - 1;
		bool list = k == "allOf" || k == "anyOf" || k == "oneOf" || (k == "items" && v->t == Val::List);
		bool map = k == "properties" || k == "patternProperties" || (k == "dependencies" && left >= 1 && step(v, p[i + 1]) && step(v, p[i + 1])->t == Val::Map);
		if ((list || map) && left >= 1) { const Val *n = step(v, p[i + 1]); if (!n) return 0; if (n->t != Val::Map) { keyword = k; return s; } s = n; i += 2; continue; }
		if ((k == "items" || k == "additionalItems" || k == "additionalProperties") && v->t == Val::Map) { s = v; ++i; continue; }
		keyword = k;
		return s;
	}
	return s;
}
static void location(Ctx &c, const Val &schema, const Val &inst, const ValidationError &e) {
	const Path &dp = e.GetDataPath(), &sp = e.GetSchemaPath();
	const Val *d = walk(inst, dp, dp.size());
	VP_CHECK(d, "the error names the data path %s, which is not in the instance", vp::quote(PathString(dp)).c_str());
	string k;
	const Val *s = innermost(schema, sp, k);
	VP_CHECK(s, "the error names the schema path %s, which is not in the schema", vp::quote(PathString(sp)).c_str());
	if (k == "additionalItems" || k == "additionalProperties") { VP_CHECK(!dp.empty(), "an additional element without a path"); d = walk(inst, dp, dp.size() - 1); }
	VP_CHECK(ref_schema(*s, *d) != YES, "the error blames %s at schema path %s (%s), but that part conforms", vp::quote(PathString(dp)).c_str(), vp::quote(PathString(sp)).c_str(), e.GetMessage().c_str());
	for (auto &r : e.GetSubErrors()) for (auto &x : r.GetErrors()) location(c, schema, inst, x);
	VP_CHECK(e.GetDataPathStr() == PathString(dp) && e.GetSchemaPathStr() == PathString(sp), "the texts %s and %s are not those of the paths", e.GetDataPathStr().c_str(), e.GetSchemaPathStr().c_str());
	c.evals(1);
}
static Val junk(Ctx &c) {
	switch (c.pick(9)) {
	case 0: return Val::integer(0);
	case 1: return Val::integer(-1);
	case 2: return Val::str("a");
	case 3: return Val::null();
	case 4: return Val::boolean(c.coin());
	case 5: return Val::list();
	case 6: return Val::map();
	case 7: return Val::real(c.coin() ? 0.0 : -1.5);
	default: { Val l = Val::list(); l.l.push_back(junk(c)); return l; }
	}
}
// replace the value of a keyword somewhere by something unsuitable
static bool spoil(Ctx &c, Val &s) {
	if (s.t == Val::Map && !s.m.empty()) {
		auto i = s.m.begin();
		std::advance(i, c.pick(s.m.size()));
		if ((i->second.t == Val::Map || i->second.t == Val::List) && c.coin() && spoil(c, i->second)) return true;
		i->second = junk(c);
		return true;
	}
	if (s.t == Val::List && !s.l.empty()) { size_t k = c.pick(s.l.size()); if (c.coin() && spoil(c, s.l[k])) return true; s.l[k] = junk(c); return true; }
	return false;
}
// puts a schema below many others, and what was made for it at the place it then judges
static void bury(Ctx &c, Val &s, std::vector<int> &how, unsigned levels) {
	for (unsigned i = 0; i < levels; ++i) {
		Val w = Val::map(), never = Val::map(), l = Val::list();
		never.m["not"] = Val::map();
		int k = c.pick(8);
		switch (k) {
		case 0: w.m["items"] = s; break;
		case 1: w.m["properties"] = Val::map(); w.m["properties"].m["a"] = s; break;
		case 2: w.m["additionalProperties"] = s; break;
		case 3: l.l.push_back(s); w.m["allOf"] = l; break;
		case 4: l.l.push_back(never); l.l.push_back(s); w.m["anyOf"] = l; break;
		case 5: l.l.push_back(s); l.l.push_back(never); w.m["oneOf"] = l; break;
		case 6: w.m["not"] = s; break;
		default: l.l.push_back(Val::map()); l.l.push_back(s); w.m["items"] = l; break;
		}
		how.push_back(k);
		s = w;
	}
}
static Val buried(Ctx &c, Val x, const std::vector<int> &how) {
	for (int k : how) {
		Val w;
		if (k == 0) { w = Val::list(); w.l.push_back(x); }
		else if (k == 1 || k == 2) { w = Val::map(); w.m["a"] = x; }
		else if (k == 7) { w = Val::list(); w.l.push_back(Val::null()); w.l.push_back(x); }
		else continue;
		x = w;
	}
	return x;
}
void vp_case(Ctx &c) {
	SchemaGen o;
	o.maxdepth = 1 + c.pick(4);
	unsigned levels = c.chance(1, 24) ? 5 + c.pick(90) : 0;
	if (levels) o.maxdepth = 1;
	ref_schema_limit = levels ? 120 : 40;
	std::vector<int> how;
	// references that may lead nowhere or in circles: must end all the same
	bool circles = !levels && c.chance(1, 12);
	if (circles) o.ref = [](Ctx &c) { static const char *r[] = {"#", "#/anyOf/0", "#/allOf/0", "#/not", "#/properties/a", "#/oneOf/1", "#/nowhere", "#x"}; Val v = Val::map(); v.m["$ref"] = Val::str(r[c.weighted({8, 2, 2, 1, 2, 1, 1, 1})]); return v; };
	Val schema = gen_schema(c, o), clean = schema;
	if (levels) bury(c, schema, how, levels);
	bool spoilt = circles || (!levels && c.chance(1, 8));
	if (spoilt && !circles) { spoil(c, schema); if (c.coin()) spoil(c, schema); }
	Variant vs = to_variant(schema);
	SchemaLoader loader;
	bool shared = c.coin();
	c.note("schema   %s", val_str(schema).c_str());
	unsigned n = 0, kw = keywords(schema);
	uint64_t h = val_hash(schema);
	bool settled = false;
	struct Past { Val x; bool error; };
	std::vector<Past> past;
	do {
		Val x = !past.empty() && c.chance(1, 4) ? past[c.pick(past.size())].x : buried(c, gen_instance(c, clean), how);
		Variant vx = to_variant(x);
		c.note("instance %s", val_str(x).c_str());
		Tri want = spoilt ? OPEN : ref_schema(schema, x);
		bool threw = false;
		string why;
		SchemaResult r;
		try { r = shared ? SchemaValidate(vs, vx, &loader) : SchemaValidate(vs, vx); }
		catch (const std::exception &e) { threw = true; why = e.what(); }
		VP_CHECK(!threw || spoilt, "validation throws: %s", why.c_str());
		VP_CHECK(val_same(from_variant(vs), schema), "validation changed the schema to %s", val_str(from_variant(vs)).c_str());
		VP_CHECK(val_same(from_variant(vx), x), "validation changed the instance to %s", val_str(from_variant(vx)).c_str());
		if (want != OPEN) {
			VP_CHECK(r.Error() == (want == NO), "the instance %s, but is %s\n%s", want == YES ? "conforms" : "does not conform", r.Error() ? "refused" : "accepted", r.PrettyPrintMessage().c_str());
			settled = true;
			h = vp::hashmix(h, val_hash(x));
		}
		if (!threw && !spoilt && r.Error()) {
			VP_CHECK(!r.SchemaErrors(), "a valid schema is called wrong: %s", r.PrettyPrintMessage().c_str());
			VP_CHECK(!r.GetErrors().empty(), "a failure without an error");
			for (auto &e : r.GetErrors()) location(c, schema, x, e);
		}
		if (!threw) VP_CHECK(r.Error() == !r.PrettyPrintMessage().empty(), "error state and message disagree");
		for (auto &p : past) if (val_same(p.x, x)) VP_CHECK(p.error == (threw || r.Error()), "the same instance is %s the second time", p.error ? "accepted" : "refused");
		past.push_back(Past{x, threw || r.Error()});
		c.label(levels ? "deep schema" : circles ? "circular references" : spoilt ? "unsuitable schema" : want == YES ? "conforms" : want == NO ? "does not conform" : "left open");
		c.evals(3);
		if (c.chance(1, 60)) vp::leak_check([&] { try { SchemaValidate(vs, vx, &loader); } catch (const std::exception &) {} }, "validating");
	} while (n++ < 5 && c.more(3));
	if (settled && kw >= 2) c.nontrivial(h);
}

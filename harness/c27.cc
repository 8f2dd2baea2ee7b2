// C27: descriptions, schemas, help and config files of command line parsers.
#include "argmodel.h"
#include <Variant/Variant.h>
#include <Variant/Schema.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "an accepted command line with at least two values whose result was validated and read back as a config file";

static void scribble(Variant v) {
	if (v.IsMap()) { for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) scribble(i->second); v.Set("scribble", 1); }
	else if (v.IsList()) { for (Variant::ListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) scribble(*i); v.Append("scribble"); }
}
static const char *const kinds[] = {"accepted", "rejected", "help", "config printed", "open"};
static void same(const AOutcome &a, const AOutcome &b, const char *what) {
	VP_CHECK(a.k == b.k, "%s: %s, but the first parser %s: %s%s", what, kinds[b.k], kinds[a.k], b.why.c_str(), a.why.c_str());
	if (a.k == AOutcome::OK) VP_CHECK(val_equal(a.result, b.result), "%s: result %s, not %s", what, val_str(b.result).c_str(), val_str(a.result).c_str());
}
static const Val *find(const Val &v, const APath &p, bool &lists) {
	const Val *at = &v;
	for (auto &x : p) {
		if (x.t == Val::Str) { if (at->t != Val::Map || !at->m.count(x.s)) return 0; at = &at->m.find(x.s)->second; }
		else { lists = true; if (at->t != Val::List || at->l.size() <= (size_t)x.i) return 0; at = &at->l[x.i]; }
	}
	return at;
}
static string message(const SchemaResult &r) { return r.PrettyPrintMessage(); }
void vp_case(Ctx &c) {
	ADesc d = gen_desc(c);
	d.config = true;
	c.note("%s", desc_str(d).c_str());
	ArgParse p("prog", d.help), q("prog", d.help);
	build(p, d);
	Env e = gen_env(c, d, true);
	Argv a = gen_argv(c, d, c.chance(3, 4), std::vector<string>());
	c.note("args %s", argv_str(a, e).c_str());
	AOutcome first;
	bool early = c.coin();
	if (!early) first = run_parse(p, a, e);
	AOutcome v;
	if (c.chance(1, 3)) v = run_caught([&] { p.Validate(); });
	VP_CHECK(v.k == AOutcome::OK, "the description is invalid: %s", v.why.c_str());
	// a parser made from the description
	Variant desc = p.GetDescription();
	Val before = from_variant(desc);
	if (c.chance(1, 3)) desc = DeserializeJSON(SerializeJSON(desc));
	v = run_caught([&] { if (c.chance(1, 4)) q.Merge(p); else q.Merge(desc); });
	VP_CHECK(v.k == AOutcome::OK, "merging the description fails: %s", v.why.c_str());
	scribble(desc);
	VP_CHECK(val_same(before, from_variant(p.GetDescription())), "changing the description changed the parser");
	if (early) first = run_parse(p, a, e);
	same(first, run_parse(q, a, e), "rebuilt parser");
	c.evals(3);
	if (c.chance(1, 4)) {
		// names the parser has no option for
		for (auto &o : d.opts) if (o.lng.empty() || o.positional) {
			for (int slash = 0; slash < 2; ++slash) {
				Argv b = a;
				b.insert(b.begin(), (slash ? "--/" : "--") + apath_str(o.path));
				same(run_parse(p, b, e), run_parse(q, b, e), "rebuilt parser");
				c.evals(1);
			}
		}
	}
	if (c.chance(1, 4)) {
		for (auto &o : d.opts) if (!o.choices.empty() || c.chance(1, 4)) q.At(apath_str(o.path)).AddChoice("no such choice");
		same(first, run_parse(p, a, e), "the first parser after a change to the rebuilt one");
		c.evals(1);
	}
	// help
	for (int adv = 0; adv < 2; ++adv) {
		AOutcome h = run_caught([&] { p.PrintHelp(adv); });
		VP_CHECK(h.k == AOutcome::HELP && h.code == 0, "printing the help: %s", h.why.c_str());
		for (unsigned i = 0; i < d.opts.size(); ++i) {
			const AOpt &o = d.opts[i];
			bool hidden = !adv && o.adv;
			for (auto &g : d.groups) for (unsigned m : g.members) if (m == i && g.adv && !adv) hidden = true;
			if (hidden && !o.positional) continue;
			string want = o.positional ? (o.title.empty() ? (o.path.back().t == Val::Str ? o.path.back().s : apath_str(o.path)) : o.title) : !o.lng.empty() ? "--" + o.lng : string("-") + o.sh;
			if (o.positional && (!o.choices.empty() || o.ty == AOpt::BOOL)) continue;
			VP_CHECK(h.why.find(want) != string::npos, "help without %s: %s", want.c_str(), h.why.c_str());
			if (!o.lng.empty() && o.sh) VP_CHECK(h.why.find(string("-") + o.sh + ",") != string::npos, "help without -%c: %s", o.sh, h.why.c_str());
			VP_CHECK(h.why.find(o.help) != string::npos, "help without %s: %s", o.help.c_str(), h.why.c_str());
		}
		VP_CHECK(h.why.find(d.about) != string::npos && h.why.find(d.epilog) != string::npos, "help without the description: %s", h.why.c_str());
		c.evals(1);
	}
	c.label(kinds[first.k]);
	if (first.k != AOutcome::OK) return;
	// the schema
	Variant schema = p.GenerateSchema();
	Variant res = to_variant(first.result);
	{
		SchemaResult r = SchemaValidate(schema, res);
		VP_CHECK(!r.Error(), "the result %s does not conform: %s", val_str(first.result).c_str(), message(r).c_str());
	}
	c.evals(1);
	for (auto &o : d.opts) {
		bool lists = false;
		const Val *x = find(first.result, o.path, lists);
		if (!x || x->t == Val::Null) continue;
		Val bad;
		bool have = false;
		if (o.act == AOpt::STORE || o.act == AOpt::APPEND) {
			if (o.min.t != Val::Null) { bad = Val::integer((int)floor(o.min.t == Val::Float ? o.min.d : (double)o.min.i) - 1); if (o.ty == AOpt::UINT && bad.i < 0) bad.i = -1; have = true; }
			else if (o.max.t != Val::Null) { bad = Val::integer((int)ceil(o.max.t == Val::Float ? o.max.d : (double)o.max.i) + 1); have = true; }
			else if (o.maxlen >= 0) { bad = Val::str(string(o.maxlen + 1, 'b')); have = true; }
			else if (o.minlen > 0) { bad = Val::str(""); have = true; }
			else if (!o.choices.empty()) { bad = Val::str("no such choice"); have = true; }
			else if (o.ty == AOpt::INT || o.ty == AOpt::UINT) { bad = c.coin() ? Val::str("1") : Val::real(0.5); have = true; }
			else if (o.ty != AOpt::GUESS) { bad = o.ty == AOpt::BOOL ? Val::integer(1) : Val::boolean(true); have = true; }
			bool count = o.act == AOpt::APPEND && !x->l.empty() && (o.maxargs > 0 || o.minargs > 1) && c.coin();
			if (count) {          // too many or too few of them
				Val l = *x;
				if (o.maxargs > 0 && (o.minargs <= 1 || c.coin())) while (l.l.size() <= (size_t)o.maxargs) l.l.push_back(l.l[0]);
				else l.l.resize(o.minargs - 1);
				bad = l;
				have = true;
			} else if (have && o.act == AOpt::APPEND) { Val l = *x; l.l[c.pick(l.l.size())] = bad; bad = l; }
		} else if (o.act == AOpt::TRUE || o.act == AOpt::FALSE) { bad = Val::str("true"); have = true; }
		else if (o.act == AOpt::COUNT) { bad = Val::integer(-1); have = true; }
		bool keys = true;
		for (auto &e : o.path) if (e.t != Val::Str) keys = false;
		if (o.required && keys) {
			Variant without = res.Copy();
			without.ErasePath(apath_str(o.path));
			VP_CHECK(SchemaValidate(schema, without).Error(), "the schema accepts a result without %s", apath_str(o.path).c_str());
			c.evals(1);
			c.label("required left out");
		}
		if (!have) continue;
		Variant spoilt = res.Copy();
		spoilt.SetPath(apath_str(o.path), to_variant(bad));
		SchemaResult r = SchemaValidate(schema, spoilt);
		VP_CHECK(r.Error(), "the schema accepts %s at %s", val_str(bad).c_str(), apath_str(o.path).c_str());
		c.evals(1);
	}
	for (auto &g : d.groups) if (g.excl) {
		// another one of the group beside the one that is set
		bool set = false;
		const AOpt *other = 0;
		for (unsigned m : g.members) {
			const AOpt &o = d.opts[m];
			bool lists = false;
			const Val *x = find(first.result, o.path, lists);
			for (auto &e : o.path) if (e.t != Val::Str) lists = true;
			if (x && x->t != Val::Null && (o.act != AOpt::COUNT || x->i > 0)) set = true;
			else if (!lists && (!other || c.coin())) other = &o;
		}
		if (!set || !other) continue;
		Val v;
		switch (other->act) {
		case AOpt::TRUE: case AOpt::FALSE: v = Val::boolean(true); break;
		case AOpt::COUNT: v = Val::integer(1); break;
		case AOpt::CONST: v = other->cnst; break;
		default:
			if (other->hasdef) v = other->def;
			else if (!other->choices.empty()) v = other->choices[0];
			else if (other->min.t != Val::Null && other->min.t != Val::Int) v = other->min;
			else v = other->ty == AOpt::STRING ? Val::str("abc") : other->ty == AOpt::BOOL ? Val::boolean(false) : Val::integer(5);
			if (other->act == AOpt::APPEND) { Val l = Val::list(); l.l.push_back(v); v = l; }
		}
		if (v.t == Val::Null) continue;
		Variant both = res.Copy();
		both.SetPath(apath_str(other->path), to_variant(v));
		VP_CHECK(SchemaValidate(schema, both).Error(), "the schema accepts %s with %s although another of its group is set", apath_str(other->path).c_str(), val_str(v).c_str());
		c.evals(1);
		c.label("two of a group");
	}
	// as a config file
	string f = vp::scratch() + "/c27.conf";
	SerializeType st = c.coin() ? SERIALIZE_JSON : SERIALIZE_YAML;
	Serialize(f.c_str(), res, st);
	Argv conf;
	conf.push_back("--config=" + f);
	same(first, run_parse(p, conf, e), "with the result as config file");
	AOutcome pr;
	Argv print(a);
	print.insert(print.begin(), "--print-config");
	pr = run_parse(p, print, e);
	VP_CHECK(pr.k == AOutcome::PRINT, "--print-config: %s", pr.why.c_str());
	Val shown = from_variant(DeserializeJSON(pr.why));
	VP_CHECK(val_equal(shown, first.result), "the config printed is %s, not %s", val_str(shown).c_str(), val_str(first.result).c_str());
	c.evals(2);
	if (val_nodes(first.result) > 2) c.nontrivial(vp::hash64(desc_str(d) + argv_str(a, e)));
}

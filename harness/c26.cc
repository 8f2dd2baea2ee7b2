// C26: command line parsing.
#include "argmodel.h"
#include <Variant/Variant.h>
#include <unistd.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "an accepted command line with at least two values, or a rejected one";

static void scribble(Variant v) {
	if (v.IsMap()) { for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) scribble(i->second); v.Set("scribble", 1); }
	else if (v.IsList()) { for (Variant::ListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) scribble(*i); v.Append("scribble"); }
}
static const char *const kinds[] = {"accepted", "rejected", "help", "config printed", "open"};
static void compare(const AOutcome &want, const AOutcome &got, const char *when) {
	if (want.k == AOutcome::OPEN) return;
	VP_CHECK(got.k == want.k, "%s%s instead of %s (%s): %s", when, kinds[got.k], kinds[want.k], want.why.c_str(), got.k == AOutcome::OK ? val_str(got.result).c_str() : got.why.c_str());
	if (want.k == AOutcome::OK) VP_CHECK(val_equal(got.result, want.result), "%sresult %s, not %s", when, val_str(got.result).c_str(), val_str(want.result).c_str());
	if (want.k == AOutcome::PRINT) {
		Val v = from_variant(Deserialize(got.why, SERIALIZE_JSON));
		VP_CHECK(val_equal(v, want.result), "%sprints the config %s, not %s", when, val_str(v).c_str(), val_str(want.result).c_str());
	}
	if (want.k == AOutcome::HELP || want.k == AOutcome::ERR) VP_CHECK(!got.why.empty(), "%sends without a message", when);
}
void vp_case(Ctx &c) {
	ADesc d = gen_desc(c);
	c.note("%s", desc_str(d).c_str());
	Files files;
	std::vector<string> names;
	if (d.config && c.coin()) {
		// values for some of the options, other keys between them
		Val doc = Val::map();
		for (auto &o : d.opts) {
			if (o.act == AOpt::CONST || c.coin()) continue;
			bool clean = c.chance(7, 8);
			Val v;
			auto one_value = [&](Val &v) {
				AOpt t(o);
				Argv x;
				string text = gen_arg_text(c, o, clean);
				ADesc one; t.path.clear(); t.path.push_back(Val::str("v")); t.required = false; t.hasdef = false; t.env.clear(); t.minargs = t.maxargs = -1; t.lng = "o"; t.positional = false; t.act = AOpt::STORE; t.sh = 0;
				AOpt loose(t); loose.choices.clear(); loose.min = loose.max = Val(); loose.minlen = loose.maxlen = -1; loose.pattern.clear();
				one.opts.push_back(loose);
				x.push_back("--o=" + text);
				AOutcome r = ref_parse(one, x, Env(), Files());
				if (r.k == AOutcome::OK) v = r.result.m["v"];
				return r.k == AOutcome::OK;
			};
			if (o.act == AOpt::APPEND && c.coin()) {
				v = Val::list();
				Val e;
				do { if (one_value(e)) v.l.push_back(e); } while (v.l.size() < 4 && c.coin());
				if (v.l.empty()) continue;      // whether this counts as given is open
			} else if (o.hasarg()) { if (!one_value(v)) continue; }
			else v = o.act == AOpt::COUNT ? Val::integer(c.pick(3)) : Val::boolean(c.coin());
			// a path that leads through the value of another key is not made
			Val *at = &doc; bool ok = true;
			for (size_t k = 0; k < o.path.size() && ok; ++k) {
				if (o.path[k].t == Val::Str) { if (at->t == Val::Null) *at = Val::map(); ok = at->t == Val::Map; if (ok) at = &at->m[o.path[k].s]; }
				else { if (at->t == Val::Null) *at = Val::list(); ok = at->t == Val::List; if (ok) { if (at->l.size() <= (size_t)o.path[k].i) at->l.resize(o.path[k].i + 1); at = &at->l[o.path[k].i]; } }
			}
			if (ok) *at = v;
		}
		if (c.chance(1, 3)) doc.m["unknown"] = Val::integer(1);
		string f = vp::scratch() + "/c26.conf";
		Serialize(f.c_str(), to_variant(doc), c.coin() ? SERIALIZE_JSON : SERIALIZE_YAML);
		files[f] = doc;
		names.push_back(f);
		c.note("config %s", val_str(doc).c_str());
	}
	if (c.chance(1, 12)) names.push_back("/nonexistent/file");
	ArgParse p("prog", d.help);
	build(p, d);
	unsigned rounds = c.coin() ? 1 : 2 + c.pick(2);
	for (unsigned k = 0; k < rounds; ++k) {
		bool clean = c.chance(2, 3);
		Env e = gen_env(c, d, clean);
		Argv a = gen_argv(c, d, clean, names);
		c.note("args %s", argv_str(a, e).c_str());
		AOutcome want = ref_parse(d, a, e, files);
		AOutcome got = run_parse(p, a, e);
		compare(want, got, k ? "parsing once more: " : "");
		c.evals(1);
		c.label(kinds[want.k]);
		if (want.k == AOutcome::ERR) c.label(("rejected: " + want.why.substr(0, want.why.find(" for ")).substr(0, want.why.compare(0, 8, "required") ? string::npos : 8)).c_str());
		if (want.k == AOutcome::ERR || (want.k == AOutcome::OK && val_nodes(want.result) > 2)) c.nontrivial(vp::hash64(desc_str(d) + argv_str(a, e)));
		if (got.k != AOutcome::OK) return;        // a program ends here
		if (want.k == AOutcome::OK && c.coin()) {
			// the result belongs to the caller
			std::vector<string> keep(a); std::vector<char *> v; static char prog[] = "prog"; v.push_back(prog); for (auto &s : keep) v.push_back(&s[0]); v.push_back(0);
			for (auto &x : e) setenv(x.first.c_str(), x.second.c_str(), 1);
			Variant r = p.Parse((int)v.size() - 1, &v[0]);
			for (auto &x : e) unsetenv(x.first.c_str());
			scribble(r);
			AOutcome again = run_parse(p, a, e);
			compare(want, again, "after changing the result: ");
			c.evals(1);
		}
	}
}

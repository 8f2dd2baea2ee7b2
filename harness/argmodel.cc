#include "argmodel.h"
#include "refguess.h"
#include <getopt.h>
#include <regex.h>
#include <setjmp.h>
#include <iostream>
#include <sstream>
#include <string.h>
#include <stdlib.h>
using namespace libvariant;
using std::string;
using std::vector;
using vp::Ctx;

// ---- catching exit() ---------------------------------------------------------
static jmp_buf exit_buf;
static bool exit_armed;
static int exit_code;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) {
	if (exit_armed) { exit_armed = false; exit_code = code; longjmp(exit_buf, 1); }
	__real_exit(code);
}
AOutcome run_caught(const std::function<void()> &fn) {
	static std::stringbuf out, err;
	out.str(""); err.str("");
	std::streambuf *so = std::cout.rdbuf(&out), *se = std::cerr.rdbuf(&err);
	static AOutcome r;
	r = AOutcome();
	if (!setjmp(exit_buf)) {
		exit_armed = true;
		try { fn(); r.k = AOutcome::OK; } catch (const std::exception &e) { r.k = AOutcome::ERR; r.why = e.what(); }
		exit_armed = false;
	} else {
		r.code = exit_code;
		r.k = exit_code ? AOutcome::ERR : AOutcome::HELP;
	}
	std::cout.rdbuf(so); std::cerr.rdbuf(se);
	std::cout.clear(); std::cerr.clear();
	if (r.k != AOutcome::OK && r.why.empty()) {
		r.why = err.str();
		if (r.k == AOutcome::HELP && !out.str().empty()) { r.k = AOutcome::PRINT; r.why = out.str(); }
	}
	return r;
}
AOutcome run_parse(ArgParse &p, const Argv &argv, const Env &env) {
	for (auto &e : env) setenv(e.first.c_str(), e.second.c_str(), 1);
	vector<string> keep(argv);
	vector<char *> v;
	static char prog[] = "prog";
	v.push_back(prog);
	for (auto &s : keep) v.push_back(&s[0]);
	v.push_back(0);
	opterr = 0;
	{       // a scan that was left in the middle must not show
		char *none[] = {prog, 0};
		optind = 0;
		struct option end = {0, 0, 0, 0};
		getopt_long(1, none, "", &end, 0);
		optind = 1;
	}
	static Val got;
	AOutcome r = run_caught([&] { Variant x = p.Parse((int)v.size() - 1, &v[0]); got = from_variant(x); });
	if (r.k == AOutcome::OK) r.result = got;
	for (auto &e : env) unsetenv(e.first.c_str());
	return r;
}
// ---- texts ---------------------------------------------------------------------
string apath_str(const APath &p) {
	string r;
	for (auto &x : p) { if (x.t == Val::Str) r += (r.empty() ? "" : "/") + x.s; else r += vp::fmt("[%d]", (int)x.i); }
	return r;
}
static const char *const acts[] = {"store", "const", "true", "false", "append", "count"};
static const char *const tys[] = {"guess", "int", "uint", "float", "string", "bool"};
string desc_str(const ADesc &d) {
	string r;
	for (auto &o : d.opts) {
		r += o.positional ? "arg " : "opt ";
		r += apath_str(o.path);
		if (o.sh) r += string(" -") + o.sh;
		if (!o.lng.empty()) r += " --" + o.lng;
		r += string(" ") + acts[o.act] + " " + tys[o.ty];
		if (o.hasdef) r += " default=" + val_str(o.def);
		if (o.act == AOpt::CONST) r += " const=" + val_str(o.cnst);
		if (o.min.t != Val::Null) r += " min=" + val_str(o.min);
		if (o.max.t != Val::Null) r += " max=" + val_str(o.max);
		if (!o.choices.empty()) { r += " choices="; for (auto &x : o.choices) r += val_str(x) + ","; }
		if (!o.pattern.empty()) r += " pattern=" + o.pattern;
		if (o.minlen >= 0) r += vp::fmt(" minlen=%d", o.minlen);
		if (o.maxlen >= 0) r += vp::fmt(" maxlen=%d", o.maxlen);
		if (o.minargs >= 0) r += vp::fmt(" minargs=%d", o.minargs);
		if (o.maxargs >= 0) r += vp::fmt(" maxargs=%d", o.maxargs);
		if (!o.env.empty()) r += " env=" + o.env;
		if (o.required) r += " required";
		if (o.adv) r += " advanced";
		r += "; ";
	}
	for (auto &g : d.groups) {
		r += "group " + g.name + (g.excl ? " exclusive" : "") + (g.required ? " required" : "") + (g.adv ? " advanced" : "") + " {";
		for (unsigned m : g.members) r += apath_str(d.opts[m].path) + " ";
		r += "}; ";
	}
	return r + (d.help ? "help " : "") + (d.config ? "config" : "");
}
string argv_str(const Argv &a, const Env &e) {
	string r;
	for (auto &x : e) r += x.first + "=" + vp::quote(x.second) + " ";
	for (auto &x : a) r += vp::quote(x) + " ";
	return r;
}
// ---- generators ----------------------------------------------------------------
static Val gen_typed(Ctx &c, AOpt::Ty ty) {
	switch (ty) {
	case AOpt::INT: return Val::integer((int)c.pick(9) - 4);
	case AOpt::UINT: return Val::integer(c.pick(6));
	case AOpt::FLOAT: return c.coin() ? Val::integer((int)c.pick(7) - 3) : Val::real(((int)c.pick(13) - 6) * 0.5);
	case AOpt::BOOL: return Val::boolean(c.coin());
	case AOpt::GUESS: return c.coin() ? Val::str(c.coin() ? "ab" : "x") : Val::integer(c.pick(5));
	default: { static const char *const s[] = {"ab", "", "x", "abc", "y b", "\xc3\xa9\xc3\xa9", "10", "true", "abcdef", "a\nb", "b\n", "x\nab"}; return Val::str(s[c.pick(12)]); }
	}
}
static string text_of(Ctx &c, const Val &v) {
	switch (v.t) {
	case Val::Int: return vp::fmt(v.i > 0 && c.chance(1, 12) ? "+%lld" : "%lld", (long long)v.i);
	case Val::UInt: return vp::fmt("%llu", (unsigned long long)v.u);
	case Val::Float: return vp::fmt("%.17g", v.d);
	case Val::Bool: { static const char *const t[] = {"true", "yes", "1", "T", "on"}, *const f[] = {"false", "no", "0", "F", "n"}; return (v.b ? t : f)[c.pick(5)]; }
	default: return v.s;
	}
}
static size_t chars(const string &s) { size_t n = 0; for (char ch : s) if ((ch & 0xC0) != 0x80) ++n; return n; }
// does the value keep to the declared rules
static bool keeps(const AOpt &o, const Val &v) {
	if (v.t == Val::Str) {
		if (o.minlen >= 0 && chars(v.s) < (size_t)o.minlen) return false;
		if (o.maxlen >= 0 && chars(v.s) > (size_t)o.maxlen) return false;
		if (!o.pattern.empty()) {
			regex_t re;
			if (regcomp(&re, o.pattern.c_str(), REG_EXTENDED | REG_NOSUB)) return false;
			bool ok = regexec(&re, v.s.c_str(), 0, 0, 0) == 0;
			regfree(&re);
			if (!ok) return false;
		}
	}
	if (v.isnum()) {
		if (o.min.t != Val::Null && num_cmp(v, o.min) < 0) return false;
		if (o.max.t != Val::Null && num_cmp(v, o.max) > 0) return false;
	}
	if (!o.choices.empty()) { bool ok = false; for (auto &x : o.choices) ok |= val_equal(x, v); return ok; }
	return true;
}
static Val gen_valid(Ctx &c, const AOpt &o) {
	if (!o.choices.empty()) { for (int i = 0; i < 4; ++i) { Val v = o.choices[c.pick(o.choices.size())]; if (keeps(o, v)) return v; } return o.choices[0]; }
	for (int i = 0; i < 6; ++i) { Val v = gen_typed(c, o.ty); if (keeps(o, v)) return v; }
	if (o.ty == AOpt::UINT && o.min.t == Val::Int && o.min.i < 0) return Val::integer(0);
	if (o.min.t != Val::Null) return o.min;
	if (o.max.t != Val::Null) return o.max;
	return o.pattern.empty() ? Val::str(string(o.minlen > 0 ? o.minlen : 0, 'q')) : Val::str("ab");
}
string gen_arg_text(Ctx &c, const AOpt &o, bool clean) {
	if (clean || c.chance(4, 5)) return text_of(c, gen_valid(c, o));
	if (c.coin()) return text_of(c, gen_typed(c, o.ty));
	static const char *const odd[] = {"", "abc", "1.5", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
		"-9223372036854775809", "99999999999999999999999", "-1", "1x", "0x10", "1e3", "-", "--", "-a", "true", "maybe", "0", "00", "-18446744073709551615", "a b", "1 2", " -5", "\t-1", "x\nb"};
	return odd[c.pick(27)];
}
ADesc gen_desc(Ctx &c) {
	ADesc d;
	d.help = !c.chance(1, 5);
	d.config = c.chance(1, 4);
	if (c.chance(1, 4)) d.about = "About it.";
	if (c.chance(1, 4)) d.epilog = "The end.";
	static const char *const longs[] = {"alpha", "beta", "al", "gamma", "beta-two", "h", "verbose", "config-x", "n", "verb"};
	static const char *const paths[] = {"a", "b", "m/x", "m/y", "q[0]", "q[1]", "n/l[0]/k", "c", "d d", "e", "f", "n/z"};
	std::map<string, int> usedl; bool useds[128] = {false}, usedp[12] = {false};
	unsigned n = 1 + c.pick(5), np = c.chance(1, 2) ? 0 : 1 + c.pick(3);
	for (unsigned i = 0; i < n + np; ++i) {
		AOpt o;
		o.positional = i >= n;
		unsigned pi = c.pick(12);
		while (usedp[pi]) pi = (pi + 1) % 12;
		usedp[pi] = true;
		for (const char *q = paths[pi]; *q;) {
			if (*q == '[') { o.path.push_back(Val::integer(q[1] - '0')); q += 3; continue; }
			if (*q == '/') ++q;
			size_t len = strcspn(q, "/[");
			o.path.push_back(Val::str(string(q, len)));
			q += len;
		}
		if (!o.positional) {
			if (c.chance(3, 5)) { char s = "abxyhvQ0"[c.pick(8)]; if (!useds[(int)s]) { useds[(int)s] = true; o.sh = s; } }
			if (!o.sh || c.chance(3, 5)) { unsigned k = c.pick(10); while (usedl.count(longs[k])) k = (k + 1) % 10; usedl[longs[k]] = 1; o.lng = longs[k]; }
			o.act = (AOpt::Act)c.weighted({6, 1, 2, 1, 3, 2});
		} else o.act = c.coin() ? AOpt::STORE : AOpt::APPEND;
		static const AOpt::Ty order[] = {AOpt::STRING, AOpt::INT, AOpt::GUESS, AOpt::FLOAT, AOpt::BOOL, AOpt::UINT};
		o.ty = order[c.pick(6)];
		if (o.hasarg()) {
			if ((o.ty == AOpt::INT || o.ty == AOpt::UINT || o.ty == AOpt::FLOAT) && c.chance(1, 2)) {
				if (c.coin()) o.min = o.ty == AOpt::UINT && c.chance(1, 5) ? Val::integer(-3) : gen_typed(c, o.ty);
				if (c.coin()) { o.max = gen_typed(c, o.ty); if (o.min.t != Val::Null && num_cmp(o.min, o.max) > 0) std::swap(o.min, o.max); }
			}
			if (o.ty == AOpt::STRING && c.chance(1, 2)) {
				if (c.chance(1, 3)) o.minlen = c.pick(3);
				if (c.chance(1, 3)) o.maxlen = 2 + c.pick(3);
				if (c.chance(1, 4)) { static const char *const p[] = {"^[a-z]*$", "b", "^a", "x|y|b", "b$", "^(ab|a.b)$"}; o.pattern = p[c.pick(6)]; }
			}
			if (c.chance(1, 6) && o.ty != AOpt::BOOL) { unsigned k = 1 + c.pick(3); while (o.choices.size() < k) { Val v = gen_typed(c, o.ty); bool dup = false; for (auto &x : o.choices) dup |= val_equal(x, v); if (dup || !keeps(AOpt(o), v)) { if (o.choices.empty()) { AOpt t(o); t.choices.clear(); if (!keeps(t, v)) { --k; if (!k) break; continue; } o.choices.push_back(v); continue; } --k; continue; } o.choices.push_back(v); } }
		}
		if (o.positional) {
			if (o.act == AOpt::STORE) { if (c.chance(1, 3)) { o.minargs = 0; o.maxargs = 1; } }
			else {
				static const int mm[][2] = {{0, 0}, {0, 2}, {1, 0}, {1, 3}, {2, 2}, {1, 1}, {2, 0}, {3, 0}};
				const int *m = mm[c.pick(8)];
				o.minargs = m[0]; o.maxargs = m[1];
			}
		} else if (o.act == AOpt::APPEND && c.chance(1, 3)) {
			if (c.coin()) o.minargs = c.pick(3);
			if (c.coin()) o.maxargs = (o.minargs > 0 ? o.minargs : 1) + c.pick(2);
		}
		if (o.act == AOpt::CONST) o.cnst = c.chance(1, 6) ? Val::list() : gen_typed(c, o.ty);
		if (c.chance(1, 3) && o.act != AOpt::COUNT) {
			o.hasdef = true;
			o.def = o.hasarg() ? gen_valid(c, o) : o.act == AOpt::CONST ? gen_typed(c, o.ty) : Val::boolean(c.coin());
			if (o.act == AOpt::STORE && o.ty == AOpt::GUESS && o.choices.empty() && c.chance(1, 4)) { o.def = Val::list(); o.def.l.push_back(Val::integer(1)); }
		}
		if (o.hasarg() && c.chance(1, 6)) o.env = vp::fmt("VPARG_%u", i);
		if (!o.positional && c.chance(1, 6)) o.required = true;
		if (c.chance(1, 10)) o.adv = true;
		if (c.chance(1, 5)) o.title = "TITLE";
		o.help = c.coin() ? "" : "text of help";
		d.opts.push_back(o);
	}
	if (c.chance(1, 3)) {
		unsigned k = 1 + c.pick(2);
		for (unsigned g = 0; g < k; ++g) {
			AGroup gr;
			gr.name = vp::fmt("g%u", g);
			if (c.coin()) gr.title = "Group title";
			if (c.chance(1, 4)) gr.text = "about the group";
			gr.excl = c.chance(3, 4);
			gr.required = c.chance(1, 4);
			gr.adv = c.chance(1, 8);
			bool def = false;
			for (unsigned i = 0; i < d.opts.size(); ++i) if (c.coin()) {
				AOpt &o = d.opts[i];
				bool has = o.hasdef || !o.env.empty();
				// which of two defaults counts is not said; a required member leaves nothing to choose
				if (gr.excl && ((has && def) || o.required || (o.positional && o.minargs != 0) || o.minargs > 0)) continue;
				gr.members.push_back(i);
				if (has) def = true;
			}
			if (gr.members.empty()) continue;
			d.groups.push_back(gr);
		}
	}
	return d;
}
void build(ArgParse &p, const ADesc &d) {
	static const ArgParseAction act[] = {ARGACTION_STORE, ARGACTION_STORE_CONST, ARGACTION_STORE_TRUE, ARGACTION_STORE_FALSE, ARGACTION_APPEND, ARGACTION_COUNT};
	static const ArgParseType ty[] = {ARGTYPE_GUESS, ARGTYPE_INT, ARGTYPE_UINT, ARGTYPE_FLOAT, ARGTYPE_STRING, ARGTYPE_BOOL};
	p.SetDescription(d.about);
	p.SetEpilog(d.epilog);
	// each declaration by one of the ways that say the same
	unsigned n = 0, npos = 0, taken = 0;
	for (auto &o : d.opts) {
		string path = apath_str(o.path);
		unsigned way = n++;
		bool flag = !o.positional && o.act == AOpt::TRUE && o.ty == AOpt::BOOL && o.hasdef && o.def.t == Val::Bool && !o.def.b;
		int sh = o.sh;
		bool again = !o.positional && !sh && !o.lng.empty() && taken && way % 2;
		if (again) { sh = taken; p.ConflictResolution(); }       // a short option that is taken is left out
		ArgParseOption x = o.positional ? p.AddArgument(path, o.help) : flag ? p.AddFlag(path, sh, o.lng, o.help) : p.AddOption(path, sh, o.lng, o.help);
		if (again) p.ConflictResolution(false);
		if (o.sh) taken = o.sh;
		if (o.positional && way % 2) x = p.At((size_t)npos);
		else if (way % 4 == 1) x = p[path];
		if (o.positional) ++npos;
		if (!flag) x.Action(act[o.act]).Type(ty[o.ty]);
		if (!o.title.empty()) x.Title(o.title);
		if (o.act == AOpt::CONST) x.Const(to_variant(o.cnst));
		if (o.hasdef && !flag) x.Default(to_variant(o.def));
		if (!o.env.empty()) x.Env(o.env.c_str());
		if (o.min.t != Val::Null) x.Minimum(to_variant(o.min));
		if (o.max.t != Val::Null) x.Maximum(to_variant(o.max));
		if (!o.choices.empty() && way % 2) {
			vector<Variant> ch;
			for (auto &v : o.choices) ch.push_back(to_variant(v));
			x.AddChoice("forgotten");
			x.SetChoices(ch);
			VP_CHECK(x.GetChoices().size() == ch.size() && std::equal(ch.begin(), ch.end(), x.GetChoices().begin()), "the choices read back differ from those set");
		} else for (auto &v : o.choices) x.AddChoice(to_variant(v));
		if (!o.pattern.empty()) x.Pattern(o.pattern);
		if (o.minlen >= 0) x.MinLength(o.minlen);
		if (o.maxlen >= 0) x.MaxLength(o.maxlen);
		bool early = o.required && way % 2;
		if (early) x.Required();
		if (o.minargs >= 0 && o.minargs == o.maxargs && way % 2) x.NumArgs(o.minargs);
		else {
			if (o.minargs >= 0) x.MinArgs(o.minargs);
			if (o.maxargs >= 0) x.MaxArgs(o.maxargs);
		}
		if (o.required) { if (!early) x.Required(); } else if (!o.positional && o.minargs < 0) x.Required(false);
		if (o.adv) x.Advanced();
	}
	for (auto &g : d.groups) {
		OptionGroup x = p.AddGroup(g.name, g.title, g.text);
		if (g.members.size() % 2) x = p.GetGroup(g.name);
		for (unsigned m : g.members) if (m % 2) p.At(apath_str(d.opts[m].path)).Group(g.name); else x.Add(apath_str(d.opts[m].path));
		if (g.excl) x.MutuallyExclusive();
		if (g.required) x.Required();
		if (g.adv) x.Advanced();
	}
	if (d.config) p.AddConfigDefaults();
	// what is taken is refused
	for (auto &o : d.opts) for (unsigned k = 0; k < 3; ++k) {
		if (k == 0 ? !o.sh : k == 1 && o.lng.empty()) continue;
		bool threw = false;
		try { p.AddOption(k == 2 ? apath_str(o.path) : "zz/other", k == 0 ? o.sh : 0, k == 1 ? o.lng : "zz-other", "").Required(); } catch (const std::exception &) { threw = true; }
		VP_CHECK(threw, "a second option is added for the %s of %s", k == 0 ? "letter" : k == 1 ? "name" : "path", apath_str(o.path).c_str());
	}
}
Env gen_env(Ctx &c, const ADesc &d, bool clean) {
	Env e;
	for (auto &o : d.opts) if (!o.env.empty() && c.coin()) e[o.env] = gen_arg_text(c, o, clean || c.chance(3, 4));
	return e;
}
Argv gen_argv(Ctx &c, const ADesc &d, bool clean, const vector<string> &files) {
	Argv a;
	vector<unsigned> todo;
	for (unsigned i = 0; i < d.opts.size(); ++i) {
		const AOpt &o = d.opts[i];
		unsigned want = o.required || o.minargs > 0 || (o.positional && o.minargs < 0) ? 1 : 0, k;
		if (clean || c.chance(5, 6)) {
			unsigned lo = std::max((int)want, o.minargs > 0 ? o.minargs : 0);
			bool many = o.act == AOpt::APPEND || o.act == AOpt::COUNT;
			k = lo + (c.coin() ? 0 : many ? (c.chance(1, 60) ? 10 + c.pick(60) : c.pick(3)) : lo ? 0 : 1);
			if (many && o.maxargs > 0 && k > (unsigned)o.maxargs) k = o.maxargs;
		} else k = c.pick(4);
		for (unsigned j = 0; j < k; ++j) todo.push_back(i);
	}
	bool ended = false;
	auto emit = [&](unsigned i) {
		const AOpt &o = d.opts[i];
		string text = o.hasarg() ? gen_arg_text(c, o, clean) : "";
		if (o.positional) { a.push_back(text); return; }
		if (o.sh && (o.lng.empty() || c.coin())) {
			string s(1, o.sh);
			// join with a cluster before it
			if (!a.empty() && a.back().size() > 1 && a.back()[0] == '-' && a.back()[1] != '-' && c.chance(1, 4)) { bool flags = true; for (size_t q = 1; q < a.back().size(); ++q) { bool f = false; for (auto &x : d.opts) if (x.sh == a.back()[q] && !x.hasarg()) f = true; flags &= f; } if (flags) { a.back() += s; s.clear(); } }
			if (!s.empty()) a.push_back("-" + s);
			if (o.hasarg()) { if (c.coin() && !text.empty()) a.back() += text; else a.push_back(text); }
		} else {
			string l = o.lng;
			if (c.chance(1, 8)) l = l.substr(0, 1 + c.pick(l.size()));
			if (o.hasarg() && c.coin()) a.push_back("--" + l + "=" + text);
			else { a.push_back("--" + l); if (o.hasarg()) a.push_back(text); }
		}
	};
	// positionals keep their order, options come anywhere
	vector<unsigned> pos, opt;
	for (unsigned i : todo) (d.opts[i].positional ? pos : opt).push_back(i);
	for (size_t i = opt.size(); i > 1; --i) std::swap(opt[i - 1], opt[i - 1 - c.pick(i)]);
	size_t p = 0, q = 0;
	while (p < pos.size() || q < opt.size()) {
		if (q < opt.size() && (p >= pos.size() || !c.chance(1, 3))) emit(opt[q++]); else {
			if (q >= opt.size() && !ended && c.chance(1, 6)) { a.push_back("--"); ended = true; }
			emit(pos[p++]);
		}
		if (!clean && c.chance(1, 20)) { static const char *const odd[] = {"-z", "--nope", "--alpha=", "--verbose=1", "--a", "-", "extra", "--help", "-h", "--print-config", "-ab", "--h"}; a.push_back(c.chance(1, 4) ? "--" + apath_str(d.opts[c.pick(d.opts.size())].path) : odd[c.pick(12)]); }
	}
	if (!files.empty() && d.config && c.coin()) a.insert(a.begin() + c.pick(a.size() + 1), "--config=" + files[c.pick(files.size())]);
	return a;
}
// ---- reference -----------------------------------------------------------------
struct Fail { string why; };
struct Open {};
static Val convert(const AOpt &o, const string &t) {
	auto digits = [](const string &s, size_t p) { return p < s.size() && s.find_first_not_of("0123456789", p) == string::npos; };
	switch (o.ty) {
	case AOpt::STRING: return Val::str(t);
	case AOpt::BOOL: {
		size_t b = t.find_first_not_of(" \t\n\v\f\r"), e = t.find_last_not_of(" \t\n\v\f\r");
		string s = b == string::npos ? "" : t.substr(b, e - b + 1);
		for (auto &ch : s) ch = tolower(ch);
		bool f = (!s.empty() && s.find_first_not_of('0') == string::npos) || (!s.empty() && (string("no").compare(0, s.size(), s) == 0 || string("false").compare(0, s.size(), s) == 0));
		return Val::boolean(!f);
	}
	case AOpt::INT: case AOpt::UINT: {
		if (!t.empty() && isspace((unsigned char)t[0])) {
			// white space before a number may be refused, but does not change its sign
			size_t q = t.find_first_not_of(" \t\n");
			if (o.ty == AOpt::UINT && q != string::npos && t[q] == '-' && digits(t, q + 1) && t.find_first_not_of('0', q + 1) != string::npos) throw Fail{"out of range"};
			throw Open();
		}
		bool neg = t[0] == '-';
		size_t p = t[0] == '-' || t[0] == '+' ? 1 : 0;
		if (!digits(t, p)) throw Fail{"not an integer"};
		__int128 v = 0;
		for (size_t i = p; i < t.size(); ++i) { v = v * 10 + (t[i] - '0'); if (v > ((__int128)1 << 100)) break; }
		if (neg) v = -v;
		if (v < (o.ty == AOpt::UINT ? 0 : -((__int128)1 << 63)) || v >= ((__int128)1 << 64)) throw Fail{"out of range"};
		return v >= ((__int128)1 << 63) ? Val::uinteger((uint64_t)v) : Val::integer((int64_t)v);
	}
	case AOpt::FLOAT: {
		if (t.empty()) throw Fail{"not a number"};
		if (isspace((unsigned char)t[0]) || t.find_first_of("xXnN") != string::npos) throw Open();
		char *e;
		double v = strtod(t.c_str(), &e);
		if (*e || e == t.c_str()) throw Fail{"not a number"};
		if (v - v != 0) throw Open();
		return Val::real(v);
	}
	default: { Val v = ref_guess(t); if (v.t == Val::Null) throw Open(); return v; }
	}
}
struct State { vector<Val> res; vector<bool> set; };
static void handle(const AOpt &o, Val &res, bool from_text, const string &text, const Val *value) {
	switch (o.act) {
	case AOpt::STORE: { Val v = from_text ? convert(o, text) : *value; if (!keeps(o, v)) throw Fail{"breaks a rule"}; res = v; break; }
	case AOpt::CONST: res = value ? *value : o.cnst; break;
	case AOpt::TRUE: res = value && value->t == Val::Bool ? *value : Val::boolean(true); break;
	case AOpt::FALSE: res = value && value->t == Val::Bool ? *value : Val::boolean(false); break;
	case AOpt::APPEND: {
		if (res.t != Val::List) res = Val::list();
		vector<Val> vs;
		if (from_text) vs.push_back(convert(o, text)); else if (value->t == Val::List) vs = value->l; else vs.push_back(*value);
		for (auto &v : vs) { if (!keeps(o, v)) throw Fail{"breaks a rule"}; res.l.push_back(v); }
		break; }
	case AOpt::COUNT: res.i += value && value->isnum() ? (value->t == Val::Int ? value->i : (int64_t)value->u) : 1; break;
	}
}
static void merge(const ADesc &d, State &st, const Val &doc, APath &path) {
	if (doc.t == Val::Null) return;
	for (unsigned i = 0; i < d.opts.size(); ++i) {
		const APath &p = d.opts[i].path;
		bool same = p.size() == path.size();
		for (size_t k = 0; same && k < p.size(); ++k) same = val_equal(p[k], path[k]);
		if (same) {
			if (doc.t == Val::Map) throw Open();
			handle(d.opts[i], st.res[i], false, "", &doc);
			st.set[i] = true;
			return;
		}
	}
	if (doc.t == Val::Map) for (auto &x : doc.m) { path.push_back(Val::str(x.first)); merge(d, st, x.second, path); path.pop_back(); }
	if (doc.t == Val::List) for (size_t k = 0; k < doc.l.size(); ++k) { path.push_back(Val::integer(k)); merge(d, st, doc.l[k], path); path.pop_back(); }
}
static void set_path(Val &v, const APath &p, size_t k, const Val &x) {
	if (k == p.size()) { v = x; return; }
	if (p[k].t == Val::Str) { if (v.t != Val::Map) v = Val::map(); set_path(v.m[p[k].s], p, k + 1, x); }
	else { if (v.t != Val::List) v = Val::list(); if (v.l.size() <= (size_t)p[k].i) v.l.resize(p[k].i + 1); set_path(v.l[p[k].i], p, k + 1, x); }
}
AOutcome ref_parse(const ADesc &d, const Argv &argv, const Env &env, const Files &files) {
	AOutcome r;
	State st;
	st.res.resize(d.opts.size());
	st.set.resize(d.opts.size());
	bool help = false, print = false, error = false, advd = false;
	for (auto &o : d.opts) advd |= o.adv;
	for (auto &g : d.groups) advd |= g.adv;
	enum { HELP = -1, ADVHELP = -2, CONFIG = -3, PRINT = -4 };
	std::map<string, int> longs; std::map<char, int> shorts;
	for (unsigned i = 0; i < d.opts.size(); ++i) {
		const AOpt &o = d.opts[i];
		if (o.positional) { if (o.act == AOpt::COUNT) st.res[i] = Val::integer(0); continue; }
		if (!o.lng.empty()) longs[o.lng] = i;
		if (o.sh) shorts[o.sh] = i;
		if (o.act == AOpt::COUNT) st.res[i] = Val::integer(0);
	}
	if (d.config) { longs["config"] = CONFIG; longs["print-config"] = PRINT; }
	if (d.help) {
		if (!shorts.count('h')) shorts['h'] = HELP;
		longs["help"] = HELP;
		if (advd) longs["adv-help"] = ADVHELP;
	}
	vector<string> rest;
	try {
		std::map<unsigned, Val> fallback;
		vector<unsigned> bad;
		for (unsigned i = 0; i < d.opts.size(); ++i) {
			const AOpt &o = d.opts[i];
			if (o.hasdef) fallback[i] = o.def;
			if (o.env.empty() || !env.count(o.env)) continue;
			try {
				Val v = convert(o, env.find(o.env)->second);
				if (!keeps(o, v)) throw Fail{""};
				fallback[i] = v;
			} catch (const Fail &) { bad.push_back(i); }
		}
		for (size_t k = 0; k < argv.size(); ++k) {
			const string &t = argv[k];
			if (t == "--") { for (++k; k < argv.size(); ++k) rest.push_back(argv[k]); break; }
			if (t.size() < 2 || t[0] != '-') { rest.push_back(t); continue; }
			auto use = [&](int id, bool has, const string &text) {
				if (id == HELP || id == ADVHELP) help = true;
				else if (id == PRINT) print = true;
				else if (id == CONFIG) { auto f = files.find(text); if (f == files.end()) throw Fail{"no such file"}; APath p; merge(d, st, f->second, p); }
				else { handle(d.opts[id], st.res[id], has, text, 0); st.set[id] = true; }
			};
			auto takes = [&](int id) { return id >= 0 ? d.opts[id].hasarg() : id == CONFIG; };
			if (t[1] == '-') {
				size_t e = t.find('=');
				string name = t.substr(2, e == string::npos ? e : e - 2);
				int id = 0; bool found = false;
				if (longs.count(name)) { id = longs[name]; found = true; }
				else for (auto &l : longs) if (l.first.compare(0, name.size(), name) == 0) { if (found) throw Fail{"ambiguous option"}; found = true; id = l.second; }
				if (!found) throw Fail{"unknown option"};
				if (takes(id)) {
					if (e != string::npos) use(id, true, t.substr(e + 1));
					else { if (++k >= argv.size()) throw Fail{"argument missing"}; use(id, true, argv[k]); }
				} else { if (e != string::npos) throw Fail{"unexpected argument"}; use(id, false, ""); }
			} else for (size_t q = 1; q < t.size(); ++q) {
				if (!shorts.count(t[q])) throw Fail{"unknown option"};
				int id = shorts[t[q]];
				if (!takes(id)) { use(id, false, ""); continue; }
				if (q + 1 < t.size()) use(id, true, t.substr(q + 1));
				else { if (++k >= argv.size()) throw Fail{"argument missing"}; use(id, true, argv[k]); }
				break;
			}
		}
		size_t k = 0;
		for (unsigned i = 0; i < d.opts.size(); ++i) {
			const AOpt &o = d.opts[i];
			if (!o.positional) continue;
			unsigned max = o.maxargs < 0 ? 1 : o.maxargs, n = 0;
			while (k < rest.size() && (max == 0 || n < max)) { handle(o, st.res[i], true, rest[k], 0); st.set[i] = true; ++k; ++n; }
		}
		if (k < rest.size()) throw Fail{"too many arguments"};
		vector<bool> given(st.set);
		for (unsigned i = 0; i < d.opts.size(); ++i) if (d.opts[i].act == AOpt::COUNT) given[i] = st.res[i].i != 0;
		vector<bool> before(given);
		// a value that breaks a rule and is not used may be reported or not
		for (unsigned i : bad) { if (given[i]) throw Open(); throw Fail{"the environment breaks a rule"}; }
		for (auto &f : fallback) {
			unsigned i = f.first;
			if (given[i]) continue;
			bool add = true;
			for (auto &g : d.groups) if (g.excl) { bool in = false, other = false; for (unsigned m : g.members) { if (m == i) in = true; else if (before[m]) other = true; } if (in && other) add = false; }
			if (!add) continue;
			if (d.opts[i].act == AOpt::APPEND) { st.res[i] = Val::list(); st.res[i].l.push_back(f.second); } else st.res[i] = f.second;
			given[i] = true;
		}
		for (unsigned i = 0; i < d.opts.size(); ++i) {
			const AOpt &o = d.opts[i];
			bool need = o.required || (o.positional ? o.minargs != 0 : o.minargs > 0);
			if (!given[i]) { if (need) throw Fail{"required " + apath_str(o.path)}; continue; }
			if (o.act == AOpt::APPEND) {
				if (o.maxargs > 0 && st.res[i].l.size() > (size_t)o.maxargs) throw Fail{"too many for " + apath_str(o.path)};
				int min = o.positional && o.minargs < 0 ? 1 : o.minargs;
				if (min > 0 && st.res[i].l.size() < (size_t)min) throw Fail{"too few for " + apath_str(o.path)};
			}
		}
		for (auto &g : d.groups) if (g.excl) {
			unsigned n = 0;
			for (unsigned m : g.members) n += given[m];
			if (n > 1) throw Fail{"exclusive"};
			if (g.required && !n) throw Fail{"one of the group is required"};
		}
		r.result = Val::map();
		for (unsigned i = 0; i < d.opts.size(); ++i) if (given[i] || d.opts[i].act == AOpt::COUNT) set_path(r.result, d.opts[i].path, 0, st.res[i]);
	} catch (const Fail &f) { error = true; r.why = f.why; }
	catch (const Open &) { r.k = AOutcome::OPEN; return r; }
	if (error && (help || print)) r.k = AOutcome::OPEN;
	else if (error) r.k = AOutcome::ERR;
	else if (help) r.k = AOutcome::HELP;
	else if (print) r.k = AOutcome::PRINT;
	return r;
}

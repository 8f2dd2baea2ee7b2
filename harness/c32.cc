// C32: nothing depends on the locale of the process.
#include "texts.h"
#include "core.h"
#include "refpatch.h"
#include "refschema.h"
#include "argmodel.h"
#include <Variant/Parser.h>
#include <Variant/Emitter.h>
#include <Variant/Payload.h>
#include <Variant/Schema.h>
#include <Variant/Extensions.h>
#include <Variant/Path.h>
#include <locale.h>
#include <locale>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the operation succeeds, and a number of at least 1000 or with a fraction is involved";

namespace {
struct Punct : std::numpunct<char> {
	char do_decimal_point() const { return ','; }
	char do_thousands_sep() const { return '.'; }
	string do_grouping() const { return "\3"; }
	string do_truename() const { return "wahr"; }
	string do_falsename() const { return "falsch"; }
};
// A numeric locale with a decimal comma, for libraries that load compiled locales
// from LOCPATH; where that does not work only the C++ locale is varied.
bool have_c_locale;
const char *const c_locale = "xx";
void make_locale() {
	static const unsigned char f[50] = {0x14, 0x11, 0x03, 0x20, 6, 0, 0, 0, 0x20, 0, 0, 0, 0x22, 0, 0, 0, 0x23, 0, 0, 0, 0x24, 0, 0, 0, 0x28, 0, 0, 0, 0x2c, 0, 0, 0,
		',', 0, 0, 0, ',', 0, 0, 0, 0, 0, 0, 0, 'U', 'T', 'F', '-', '8', 0};
	string d = vp::scratch() + "/loc";
	mkdir(d.c_str(), 0700);
	mkdir((d + "/xx").c_str(), 0700);
	FILE *o = fopen((d + "/xx/LC_NUMERIC").c_str(), "wb");
	if (!o) return;
	fwrite(f, 1, sizeof f, o);
	fclose(o);
	setenv("LOCPATH", d.c_str(), 1);
	have_c_locale = setlocale(LC_NUMERIC, c_locale) && string(localeconv()->decimal_point) == ",";
	setlocale(LC_NUMERIC, "C");
}
struct Locale {
	std::locale old;
	Locale(size_t k) : old(std::locale::classic()) {       // bits: C++, C numbers, C characters
		if (k & 1) std::locale::global(std::locale(std::locale::classic(), new Punct));
		if (k & 2) setlocale(LC_NUMERIC, c_locale);
		if (k & 4) setlocale(LC_CTYPE, "C.UTF-8");
	}
	~Locale() { std::locale::global(std::locale::classic()); setlocale(LC_NUMERIC, "C"); setlocale(LC_CTYPE, "C"); }
};
struct Res { bool err = false; Val v; string s; };
typedef std::function<void(Res &)> Op;
Res eval(const Op &op) {
	Res r;
	try { op(r); } catch (std::exception &) { r = Res(); r.err = true; }
	return r;
}
bool big(const Val &v) {
	if (v.t == Val::Int) return v.i >= 1000 || v.i <= -1000;
	if (v.t == Val::UInt) return v.u >= 1000;
	if (v.t == Val::Float) return true;
	if (v.t == Val::List && v.l.size() > 1000) return true;
	for (auto &x : v.l) if (big(x)) return true;
	for (auto &x : v.m) if (big(x.second)) return true;
	return false;
}
bool big(const string &s) {
	size_t n = 0;
	for (size_t i = 0; i < s.size(); ++i) { if (s[i] >= '0' && s[i] <= '9') { if (++n >= 4) return true; } else { if (s[i] == '.' && n) return true; n = 0; } }
	return false;
}
const SerializeType formats[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
string number_text(Ctx &c) {
	static const std::vector<string> t = {"1.5", "1234", "1234567.25", "-0.001", "1e3", "2,5", "1.234,5", "1,234", "1.234.567", "0x1F40", ".5", "5.", "12345678901234567890", "true", "wahr", "1e400", "-1234"};
	switch (c.pick(3)) {
	case 0: return c.oneof(t);
	case 1: return vp::fmt("%.*g", (int)c.range(1, 17), gen_double(c, false));
	default: return vp::fmt("%lld", (long long)gen_int(c));
	}
}
EPath long_path(Ctx &c) {
	EPath p;
	while (p.size() < 5 && (p.empty() || c.more(2))) {
		if (c.coin()) p.push_back(Elem(c.oneof(core_keys)));
		else p.push_back(Elem((unsigned)(c.coin() ? c.range(0, 20) : c.range(900, 1500))));
	}
	return p;
}
Val long_list(Ctx &c) {
	Val l = Val::list();
	size_t n = 1000 + c.pick(8);
	for (size_t i = 0; i < n; ++i) l.l.push_back(Val::integer(i % 7));
	return l;
}
}
void vp_setup() { make_locale(); }
void vp_case(Ctx &c) {
	size_t k = 1 + (have_c_locale ? c.pick(3) : 0) + (c.chance(1, 3) ? 4 : 0);
	if (!have_c_locale) c.exclude("no C locale with a decimal comma");
	string what;
	Op op;
	bool interesting = false;
	GenOpt go;
	switch (c.pick(12)) {
	case 0: {
		SerializeType f = formats[c.pick(4)];
		Val v = gen_val_for(c, f);
		Variant d = to_variant(v), p = gen_params(c, f);
		what = vp::fmt("serialise %s as %s", val_str(v).c_str(), format_name(f));
		op = [=](Res &r) { r.s = Serialize(d, f, p); };
		interesting = big(v);
		break; }
	case 1: case 2: {
		SerializeType f = formats[c.pick(4)], g = c.chance(1, 6) && f != SERIALIZE_BUNDLEHDR ? SERIALIZE_GUESS : f;
		string t;
		try { t = c.coin() ? Serialize(to_variant(gen_val_for(c, f)), f, gen_params(c, f)) : gen_format_text(c, f, false); } catch (std::exception &) { throw vp::Discard(); }
		what = vp::fmt("parse %s as %s", vp::quote(t).c_str(), format_name(f));
		op = [=](Res &r) { r.v = from_variant(Deserialize(t, g)); };
		interesting = big(t);
		break; }
	case 3: {
		string t = number_text(c);
		Val v = c.coin() ? Val::str(t) : gen_scalar(c, go);
		Variant d = to_variant(v);
		what = "convert " + val_str(v);
		size_t way = c.pick(5);
		op = [=](Res &r) {
			switch (way) {
			case 0: r.s = d.AsString(); break;
			case 1: r.v = Val::real(d.AsDouble()); break;
			case 2: r.v = Val::integer(d.AsInt()); break;
			case 3: r.v = Val::uinteger(d.AsUnsigned()); break;
			case 4: r.v = Val::boolean(d.AsBool()); break;
			}
		};
		interesting = big(v) || big(t);
		what += vp::fmt(" way %zu", way);
		break; }
	case 4: {
		EPath p = long_path(c);
		string t = PathString(to_path(p));
		what = "path text " + epath_str(p);
		bool ptr = c.coin();
		op = [=](Res &r) { r.s = ptr ? FormJSONPointer(to_path(p)) : PathString(to_path(p)); };
		interesting = big(t);
		break; }
	case 5: {
		string t = PathString(to_path(long_path(c)));
		what = "parse path " + vp::quote(t);
		op = [=](Res &r) {
			Path p = ParsePath(t);
			r.v = Val::list();
			for (auto &e : p) r.v.l.push_back(e.IsString() ? Val::str(e.AsString()) : Val::integer(e.AsUnsigned()));
		};
		interesting = big(t);
		break; }
	case 6: {
		Val d = c.chance(1, 12) ? long_list(c) : gen_patch_doc(c);
		bool exp = c.coin();
		what = (exp ? "flatten and expand " : "flatten ") + val_str(d).substr(0, 400);
		op = [=](Res &r) { Variant f = FlattenPath(to_variant(d)); if (exp) f = ExpandPath(f); r.v = from_variant(f); };
		interesting = big(d);
		break; }
	case 7: {
		Val a = c.chance(1, 12) ? long_list(c) : gen_patch_doc(c), b = a;
		if (a.l.size() > 900) { a.l.resize(a.l.size() - c.pick(4)); b.l[b.l.size() - 1 - c.pick(3)] = Val::str("x"); }
		else if (c.coin()) b = gen_patch_doc(c); else mutate_val(c, b, go);
		what = "diff " + val_str(a).substr(0, 300) + " to " + val_str(b).substr(0, 300);
		bool apply = c.coin();
		op = [=](Res &r) {
			Variant x = to_variant(a), y = to_variant(b), d = JSONDiff(x, y);
			if (apply) { JSONPatch(x, d); r.v = from_variant(x); } else r.v = from_variant(d);
		};
		interesting = big(a) || big(b);
		break; }
	case 8: {
		SerializeType f = formats[c.pick(4)];
		Val d = f == SERIALIZE_BUNDLEHDR ? gen_bundle_map(c) : gen_map(c, go);
		string bytes(c.chance(1, 3) ? c.range(1000, 1300) : c.range(0, 40), 'p');
		if (f == SERIALIZE_BUNDLEHDR) d.m["payload.data"] = Val::blob(bytes);
		else { d.m["payload"] = Val::map(); d.m["payload"].m["data"] = Val::blob(bytes); }
		what = vp::fmt("payload of %zu bytes as %s", bytes.size(), format_name(f));
		bool back = c.coin();
		string t;
		if (back) { try { t = SerializeWithPayload(to_variant(d), f); } catch (std::exception &) { throw vp::Discard(); } }
		op = [=](Res &r) { if (back) r.v = from_variant(DeserializeWithPayload(t, f)); else r.s = SerializeWithPayload(to_variant(d), f); };
		interesting = bytes.size() >= 1000 || big(d);
		break; }
	case 9: {
		k &= 3;                          // what a character is in a pattern is left to the C locale
		SchemaGen o;
		Val s = gen_schema(c, o), i = gen_instance(c, s);
		what = "validate " + val_str(i) + " with " + val_str(s);
		op = [=](Res &r) { r.v = Val::boolean(SchemaValidate(to_variant(s), to_variant(i)).Error()); };
		interesting = big(s) || big(i);
		break; }
	case 10: {
		k &= 3;
		ADesc d = gen_desc(c);
		d.config = false;
		Argv a = gen_argv(c, d, c.chance(3, 4), {});
		what = desc_str(d) + "\n" + argv_str(a, Env());
		op = [=](Res &r) {
			ArgParse p("prog");
			build(p, d);
			AOutcome x = run_parse(p, a, Env());
			r.v = x.result;
			r.s = vp::fmt("%d", (int)x.k);
		};
		for (auto &t : a) interesting |= big(t);
		break; }
	default: {
		string t = number_text(c), u = number_text(c);
		size_t way = c.pick(4);
		what = vp::fmt("arithmetic %zu on %s and %s", way, t.c_str(), u.c_str());
		op = [=](Res &r) {
			Variant a = Deserialize("[" + t + "," + u + "]", SERIALIZE_YAML);
			Variant x = a.Get(0), y = a.Get(1);
			if (way == 0) r.v = from_variant(x + y);
			else if (way == 1) r.v = from_variant(x * y);
			else if (way == 2) r.v = Val::integer(x.Compare(y));
			else r.v = Val::boolean(x == Variant(y.AsString()));
		};
		interesting = big(t) || big(u);
	} }
	c.note("%s, locale %zu", what.c_str(), k);
	Res a = eval(op), b;
	{ Locale l(k); b = eval(op); }
	c.evals(2);
	VP_CHECK(a.err == b.err, "%s only with %s locale", b.err ? "fails" : "succeeds", "the other");
	if (a.s != b.s) vp::fail(vp::fmt("gives %s, with the other locale %s", vp::quote(a.s).c_str(), vp::quote(b.s).c_str()));
	if (!val_same(a.v, b.v)) vp::fail(vp::fmt("gives another value with the other locale: %s", val_diff(a.v, b.v).c_str()));
	if (interesting && !a.err) c.nontrivial(vp::hash64(what) + k);
}

// C35: a failed access names its cause and changes nothing.
#include "val.h"
#include "core.h"
#include <Variant/Variant.h>
#include <Variant/Exceptions.h>
#include <memory>
#include <functional>
#include <limits>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "an operation that fails on an element of a document with at least three values";

namespace {
enum Kind { DONE, KEY, RANGE, TYPE, CONVERT, NUMERIC, DEADREF, OTHER };
const char *const kind_name[] = {"success", "KeyError", "std::out_of_range", "an error about the type", "UnableToConvertError", "an error about a non-numeric type", "InvalidReferenceError", "another exception"};
struct Seen {
	bool threw = false, key = false, range = false, type = false, convert = false, numeric = false, dead = false;
	string what;
	bool is(Kind k) const {
		switch (k) {
		case DONE: return !threw;
		case KEY: return key;
		case RANGE: return range;
		case TYPE: return type || convert;
		case CONVERT: return convert;
		case NUMERIC: return numeric || convert;
		case DEADREF: return dead;
		default: return true;
		}
	}
};
Seen run(const std::function<void()> &fn) {
	Seen s;
	try { fn(); }
	catch (const KeyError &e) { s.threw = s.key = true; s.what = e.what(); }
	catch (const std::out_of_range &e) { s.threw = s.range = true; s.what = e.what(); }
	catch (const UnableToConvertError &e) { s.threw = s.convert = true; s.what = e.what(); }
	catch (const NotNumericTypeError &e) { s.threw = s.numeric = true; s.what = e.what(); }
	catch (const UnexpectedTypeError &e) { s.threw = s.type = true; s.what = e.what(); }
	catch (const TypeNotIndexableError &e) { s.threw = s.type = true; s.what = e.what(); }
	catch (const InvalidOperationError &e) { s.threw = s.type = true; s.what = e.what(); }
	catch (const BadPathError &e) { s.threw = s.type = true; s.what = e.what(); }
	catch (const InvalidReferenceError &e) { s.threw = s.dead = true; s.what = e.what(); }
	catch (const std::exception &e) { s.threw = true; s.what = string("(") + typeid(e).name() + ") " + e.what(); }
	return s;
}
// what looking up p from v comes to
Kind walk(const Val &v, const EPath &p, string &key, const Val **end = 0) {
	const Val *at = &v;
	for (auto &e : p) {
		if (e.key) {
			key = e.k;
			if (at->t == Val::Null) return KEY;
			if (at->t != Val::Map) return TYPE;
			auto i = at->m.find(e.k);
			if (i == at->m.end()) return KEY;
			at = &i->second;
		} else {
			if (at->t == Val::Null) return RANGE;
			if (at->t != Val::List) return TYPE;
			if (e.i >= at->l.size()) return RANGE;
			at = &at->l[e.i];
		}
	}
	if (end) *end = at;
	return DONE;
}
Elem some_elem(Ctx &c, const Val &at, const GenOpt &o) {
	if (at.t == Val::Map && !at.m.empty() && c.chance(2, 3)) { auto i = at.m.begin(); std::advance(i, c.pick(at.m.size())); return Elem(i->first); }
	if (at.t == Val::List && !at.l.empty() && c.chance(2, 3)) return Elem((unsigned)c.pick(at.l.size()));
	bool key = at.t == Val::Map ? c.chance(3, 4) : at.t == Val::List ? c.chance(1, 4) : c.coin();
	return key ? Elem(c.chance(1, 4) ? vp::fmt("%u", (unsigned)c.pick(3)) : gen_key(c, o)) : Elem((unsigned)(at.l.size() + c.pick(3)));
}
EPath some_path(Ctx &c, const Val &doc, const GenOpt &o, size_t max) {
	EPath p;
	while (p.size() < max && c.more(2)) {
		const Val *at = &doc;
		string k;
		Val none;
		if (walk(doc, p, k, &at) != DONE) at = &none;
		p.push_back(some_elem(c, *at, o));
	}
	return p;
}
VariantRef ref_at(Variant &d, const EPath &p, size_t i = 0) {
	if (i == p.size()) return d.Ref();
	VariantRef n = p[i].key ? d[p[i].k] : d[p[i].i];
	return ref_at(n, p, i + 1);
}
const Variant &const_at(const Variant &d, const EPath &p) {
	const Variant *v = &d;
	for (auto &e : p) v = e.key ? &(*v)[e.k] : &(*v)[e.i];
	return *v;
}
Variant get_at(const Variant &d, const EPath &p) {
	std::unique_ptr<Variant> at(new Variant(d));
	for (auto &e : p) { Variant n = e.key ? at->Get(e.k) : at->Get(e.i); at.reset(new Variant(n)); }
	return *at;
}
bool plain(const string &s) {
	if (s.empty()) return false;
	for (char x : s) if (!isalnum((unsigned char)x)) return false;
	return true;
}
bool container(const Val &v) { return v.t == Val::List || v.t == Val::Map || v.t == Val::Blob; }
}

void vp_case(Ctx &c) {
	GenOpt o;
	o.maxdepth = 3;
	o.simple_keys = c.coin();
	Val doc = c.chance(1, 6) ? gen_val(c, o) : gen_container(c, o);
	Variant d = to_variant(doc), alias = d;
	const Variant &cd = d;
	c.note("document %s", val_str(doc).c_str());
	EPath p = some_path(c, doc, o, 4);
	string key, ps = epath_str(p);
	const Val *at = 0;
	Kind want = walk(doc, p, key, &at);
	Seen s;
	string op;
	bool must = true;                                  // the kind is known beforehand
	c.evals(1);
	if (c.chance(1, 30)) {                             // a reference to something that is gone
		std::unique_ptr<Variant> gone(new Variant(to_variant(doc)));
		VariantRef r = gone->Ref();
		gone.reset();
		op = "reading through a reference to a destroyed variant";
		size_t w = c.pick(4);
		s = run([&] { switch (w) { case 0: r.GetType(); break; case 1: r.AsString(); break; case 2: r.Copy(); break; default: r.Append(1); } });
		want = DEADREF;
		ps = "";
	} else if ((want == KEY || want == RANGE) && c.coin()) {    // a reference to something that is not there yet
		VariantRef r = ref_at(d, p);
		const Variant &k = r;
		Variant &t = r;
		Elem x = some_elem(c, Val(), o);
		EPath q(1, x);
		if (c.coin()) q.push_back(some_elem(c, Val(), o));
		Path lq = to_path(q);
		size_t w = c.pick(20);
		static const char *const ways[] = {"AsInt", "AsUnsigned", "AsDouble", "AsString", "AsBool", "Size", "Copy", "GetType", "Get", "GetPath", "AsList", "AsMap", "AsBlob", "==", "Contains", "HasPath", "Get with a default", "Erase", "ErasePath", "++"};
		op = string(ways[w]) + " of " + epath_str(q) + " through a reference to a missing element";
		must = w < 13;
		bool has = false;
		s = run([&] { switch (w) {
			case 0: k.AsInt(); break;
			case 1: k.AsUnsigned(); break;
			case 2: k.AsDouble(); break;
			case 3: k.AsString(); break;
			case 4: k.AsBool(); break;
			case 5: k.Size(); break;
			case 6: k.Copy(); break;
			case 7: k.GetType(); break;
			case 8: if (x.key) k.Get(x.k); else k.Get(x.i); break;
			case 9: k.GetPath(lq); break;
			case 10: k.AsList(); break;
			case 11: k.AsMap(); break;
			case 12: k.AsBlob(); break;
			case 13: has = k == k; has = false; break;
			case 14: has = x.key ? k.Contains(x.k) : k.Contains(x.i); break;
			case 15: has = k.HasPath(lq); break;
			case 16: if (x.key) k.Get(x.k, 5); else k.Get(x.i, 5); break;
			case 17: if (x.key) t.Erase(x.k); else t.Erase(x.i); break;
			case 18: t.ErasePath(lq, c.coin()); break;
			default: ++t;
		} });
		VP_CHECK(!has, "%s says it is there, path %s", op.c_str(), ps.c_str());
		if (w < 19) {
			Val now = from_variant(d);
			VP_CHECK(val_same(now, doc), "%s changed the document, path %s: %s", op.c_str(), ps.c_str(), val_diff(doc, now).c_str());
		}
		c.label("reference to a missing element");
	} else if (want != DONE || c.chance(1, 8)) {       // looking something up
		size_t w = c.pick(9);
		int64_t into = 77;
		static const char *const ways[] = {"GetPath", "AtPath of a const variant", "GetPath by text", "Get step by step", "[] of a const variant", "a read through []", "Copy through AtPath", "GetPathInto", "HasPath"};
		op = string("lookup by ") + ways[w];
		Path lp = to_path(p);
		string text = PathString(lp);
		if (w == 2) { if (p.empty()) throw vp::Discard(); for (auto &e : p) if (e.key && e.k.empty()) throw vp::Discard(); }
		bool has = false;
		s = run([&] { switch (w) {
			case 0: cd.GetPath(lp); break;
			case 1: cd.AtPath(lp); break;
			case 2: cd.GetPath(text); break;
			case 3: get_at(d, p); break;
			case 4: const_at(d, p); break;
			case 5: { VariantRef r = ref_at(d, p); r.GetType(); break; }
			case 6: d.AtPath(lp).Copy(); break;
			case 7: cd.GetPathInto(into, lp); break;
			default: has = cd.HasPath(lp);
		} });
		if (w == 7 && want == DONE) { must = false; VP_CHECK(!s.threw || s.is(CONVERT), "%s of %s threw %s", op.c_str(), ps.c_str(), s.what.c_str()); }
		if (w == 8) { VP_CHECK(!s.threw && has == (want == DONE), "HasPath of %s says %d, threw %s", ps.c_str(), has, s.what.c_str()); must = false; }
		if (w == 7 && s.threw) VP_CHECK(into == 77, "a failed GetPathInto set its target to %lld", (long long)into);
	} else {                                           // using an element
		const Val &v = *at;
		std::unique_ptr<Variant> h;
		std::unique_ptr<VariantRef> r;
		Variant e = p.empty() ? d : Variant(cd.GetPath(to_path(p)));     // shares containers with d
		Variant &target = e;
		const Variant &ct = e;
		bool by_ref = c.coin();
		if (by_ref) r.reset(new VariantRef(ref_at(d, p)));
		Variant &t = by_ref ? (Variant &)*r : target;
		const Variant &k = by_ref ? (const Variant &)*r : ct;
		size_t w = c.pick(26);
		Val arg = gen_scalar(c, o);
		if (c.chance(1, 3)) { GenOpt o1 = o; o1.maxdepth = 1; arg = gen_container(c, o1); }
		Variant av = to_variant(arg);
		Elem x = some_elem(c, v, o);
		if ((w == 16 || w == 17) && c.chance(1, 20)) x = Elem(std::numeric_limits<unsigned>::max());
		must = true;
		want = DONE;
		auto type_unless = [&](bool ok) { if (ok) must = false; else want = TYPE; };
		auto convert = [&] { if (container(v)) want = CONVERT; else { must = false; want = CONVERT; } };
		auto number = [&](bool two) { want = NUMERIC; must = container(v) || (two && v.isnum() && container(arg)); };
		// no digits, and not the beginning of an infinity or NaN
		bool no_number = v.t == Val::Str && v.s.find_first_of("0123456789iInN") == string::npos;
		auto to_number = [&] { convert(); if (no_number) must = true; };
		switch (w) {
		case 0: op = "AsBool"; convert(); s = run([&] { k.AsBool(); }); break;
		case 1: op = "AsInt"; to_number(); s = run([&] { k.AsInt(); }); break;
		case 2: op = "AsUnsigned"; to_number(); s = run([&] { k.AsUnsigned(); }); break;
		case 3: op = "AsDouble"; to_number(); s = run([&] { if (c.coin()) k.AsDouble(); else k.AsLongDouble(); }); break;
		case 4: op = "AsString"; convert(); s = run([&] { k.AsString(); }); break;
		case 5: op = "As<int>"; to_number(); s = run([&] { k.As<int>(); }); break;
		case 6: op = "AsList of a const variant"; type_unless(v.t == Val::List || v.t == Val::Null); s = run([&] { k.AsList(); }); break;
		case 7: op = "AsMap of a const variant"; type_unless(v.t == Val::Map || v.t == Val::Null); s = run([&] { k.AsMap(); }); break;
		case 8: op = "AsBlob of a const variant"; type_unless(v.t == Val::Blob); s = run([&] { k.AsBlob(); }); break;
		case 9: op = "AsList"; type_unless(v.t == Val::List || v.t == Val::Null); s = run([&] { t.AsList(); }); break;
		case 10: op = "AsMap"; type_unless(v.t == Val::Map || v.t == Val::Null); s = run([&] { t.AsMap(); }); break;
		case 11: op = "AsBlob"; type_unless(v.t == Val::Blob); s = run([&] { t.AsBlob(); }); break;
		case 12: op = "Size"; type_unless(v.t == Val::Str || v.t == Val::Null || container(v)); s = run([&] { k.Size(); }); break;
		case 13: op = "Empty"; type_unless(v.t == Val::Str || v.t == Val::Null || container(v)); s = run([&] { k.Empty(); }); break;
		case 14: op = "Append"; type_unless(v.t == Val::List || v.t == Val::Null); s = run([&] { t.Append(av); }); break;
		case 15: op = "Index"; type_unless(v.t == Val::List || v.t == Val::Null); s = run([&] { k.Index(av); }); break;
		case 16: op = "Set of " + epath_str(EPath(1, x)); type_unless(v.t == Val::Null || v.t == (x.key ? Val::Map : Val::List)); s = run([&] { if (x.key) t.Set(x.k, av); else t.Set(x.i, av); }); break;
		case 17: op = "assigning to [" + epath_str(EPath(1, x)) + "]"; type_unless(v.t == Val::Null || v.t == (x.key ? Val::Map : Val::List)); s = run([&] { if (x.key) t[x.k] = av; else t[x.i] = av; }); break;
		case 18: op = "Erase of " + epath_str(EPath(1, x)); type_unless(v.t == Val::Null || v.t == (x.key ? Val::Map : Val::List)); s = run([&] { if (x.key) t.Erase(x.k); else t.Erase(x.i); }); break;
		case 19: op = "SetPath of two steps"; { EPath q(1, x); const Val *in = 0; string kk; Kind first = walk(v, q, kk, &in);
			Elem y = some_elem(c, in && first == DONE ? *in : Val(), o); q.push_back(y);
			// the second step goes into what is there, or into a new element
			type_unless((v.t == Val::Null || v.t == (x.key ? Val::Map : Val::List)) && (first != DONE || in->t == Val::Null || in->t == (y.key ? Val::Map : Val::List)));
			op += " " + epath_str(q);
			s = run([&] { t.SetPath(to_path(q), av); }); break; }
		case 20: op = "Merge"; type_unless((v.t == Val::Map || v.t == Val::Null || arg.m.empty()) && (arg.t == Val::Map || arg.t == Val::Null)); s = run([&] { t.Merge(av); }); break;
		case 21: op = "increment"; number(false); s = run([&] { if (c.coin()) ++t; else --t; }); break;
		case 22: op = "negation"; number(false); s = run([&] { -k; }); break;
		case 23: case 24: op = "arithmetic"; number(true); if (arg.isnum() && val_equal(arg, Val::integer(0))) throw vp::Discard();
			s = run([&] { switch (c.pick(5)) { case 0: t += av; break; case 1: t -= av; break; case 2: t *= av; break; case 3: t /= av; break; default: t %= av; } });
			if (s.threw && !s.is(NUMERIC) && v.isnum() && arg.isnum()) return;      // a result out of range
			break;
		default: op = "a typed container"; type_unless(v.t == Val::List || v.t == Val::Map || v.t == Val::Null);
			s = run([&] { if (c.coin()) variant_cast<std::vector<Variant> >(k); else variant_cast<std::map<string, Variant> >(k); }); break;
		}
		op += " with " + val_str(arg);
		if (!must && s.threw) {
			Kind ok = want == DONE ? TYPE : want;
			if (w == 16 || w == 17 || w == 19) { if (!s.is(ok)) VP_CHECK(s.range, "%s on %s (%s) threw %s", op.c_str(), ps.c_str(), val_str(v).c_str(), s.what.c_str()); }
			else VP_CHECK(s.is(ok), "%s on %s (%s) threw %s, not %s", op.c_str(), ps.c_str(), val_str(v).c_str(), s.what.c_str(), kind_name[ok]);
		}
		VP_CHECK(val_same(from_variant(av), arg), "%s changed its argument", op.c_str());
		if (s.threw && !by_ref) VP_CHECK(val_same(from_variant(e), v), "%s failed and changed the element %s to %s", op.c_str(), val_str(v).c_str(), val_str(from_variant(e)).c_str());
	}
	c.note("%s on path %s", op.c_str(), ps.c_str());
	if (must) {
		if (want == DONE) VP_CHECK(!s.threw, "%s on path %s threw %s", op.c_str(), ps.c_str(), s.what.c_str());
		else {
			VP_CHECK(s.threw, "%s on path %s did not fail; %s was expected", op.c_str(), ps.c_str(), kind_name[want]);
			VP_CHECK(s.is(want), "%s on path %s threw %s, not %s", op.c_str(), ps.c_str(), s.what.c_str(), kind_name[want]);
			if (want == KEY && plain(key)) VP_CHECK(s.what.find(key) != string::npos, "%s on path %s: the error does not name the key %s: %s", op.c_str(), ps.c_str(), key.c_str(), s.what.c_str());
			VP_CHECK(!s.what.empty(), "%s on path %s: the error says nothing", op.c_str(), ps.c_str());
		}
	}
	if (s.threw) {
		Val now = from_variant(d), also = from_variant(alias);
		VP_CHECK(val_same(now, doc), "%s on path %s failed (%s) and changed the document: %s", op.c_str(), ps.c_str(), s.what.c_str(), val_diff(doc, now).c_str());
		VP_CHECK(val_same(also, doc), "%s on path %s failed and changed another handle: %s", op.c_str(), ps.c_str(), val_diff(doc, also).c_str());
		c.label(s.key ? "key" : s.range ? "index" : s.dead ? "dead reference" : s.numeric ? "not a number" : s.convert ? "conversion" : s.type ? "type" : "other");
		if (val_nodes(doc) >= 3) c.nontrivial(vp::hashmix(val_hash(doc), vp::hash64(op + "|" + ps)));
	}
}

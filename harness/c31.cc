// C31: typed access - casts to and construction from C++ types and containers.
#include "val.h"
#include "core.h"
#include <Variant/Variant.h>
#include <complex>
#include <limits>
#include <math.h>
#include <type_traits>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "a container with at least two elements, or a number other than 0 and 1";

namespace {
struct Out { bool open = false, thrown = false; string why; };   // outcome besides the value
bool same(const string &a, const string &b) { return a == b; }
template<class T> bool same(const T &a, const T &b) { return a == b || (a != a && b != b); }
template<class T> bool same(const std::complex<T> &a, const std::complex<T> &b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
template<class T> bool same(const std::vector<T> &a, const std::vector<T> &b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) { T x = a[i], y = b[i]; if (!same(x, y)) return false; }
	return true;
}
template<class T> bool same(const std::map<string, T> &a, const std::map<string, T> &b) {
	if (a.size() != b.size()) return false;
	for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || !same(i->second, j->second)) return false;
	return true;
}

// ---- what a stored value is as a T, from the stored value
template<class T, class = void> struct Conv;
template<class T> struct Conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
	static T get(const Val &v, Out &o) {
		typedef std::numeric_limits<T> L;
		switch (v.t) {
		case Val::Bool: return v.b;
		case Val::Int: if (v.i < 0 ? !L::is_signed || (intmax_t)v.i < (intmax_t)L::min() : (uintmax_t)v.i > (uintmax_t)L::max()) o.open = true; return (T)v.i;
		case Val::UInt: if (v.u > (uintmax_t)L::max()) o.open = true; return (T)v.u;
		case Val::Float: {
			long double t = truncl((long double)v.d);
			if (!(t >= (long double)L::min() && t <= (long double)L::max())) { o.open = true; return 0; }
			return (T)t;
		}
		case Val::List: case Val::Map: case Val::Blob: o.thrown = true; return 0;
		default: o.open = true; return 0;
		}
	}
	static const char *name() { return std::is_signed<T>::value ? "a signed integer" : "an unsigned integer"; }
	static T gen(Ctx &c) {
		typedef std::numeric_limits<T> L;
		switch (c.pick(4)) {
		case 0: return (T)c.pick(3);
		case 1: return (T)(L::max() - (T)c.pick(3));
		case 2: return (T)(L::min() + (T)c.pick(3));
		default: return (T)c.bits64();
		}
	}
	static Val val(T v) { return std::is_signed<T>::value || sizeof(T) < sizeof(int) ? Val::integer((intmax_t)v) : Val::uinteger((uintmax_t)v); }
};
template<> struct Conv<bool, void> {
	static bool get(const Val &v, Out &o) {
		switch (v.t) {
		case Val::Bool: return v.b;
		case Val::Int: return v.i != 0;
		case Val::UInt: return v.u != 0;
		case Val::Float: return v.d != 0;
		case Val::List: case Val::Map: case Val::Blob: o.thrown = true; return false;
		default: o.open = true; return false;
		}
	}
	static const char *name() { return "bool"; }
	static bool gen(Ctx &c) { return c.coin(); }
	static Val val(bool v) { return Val::boolean(v); }
};
template<class T> struct Conv<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
	static const bool wide = std::numeric_limits<T>::digits >= 64;          // holds every integer
	static T get(const Val &v, Out &o) {
		switch (v.t) {
		case Val::Bool: return v.b;
		case Val::Int: return wide || (T)(long double)v.i == (T)(double)v.i ? (T)v.i : (o.open = true, (T)0);   // double rounding is left open
		case Val::UInt: return wide || (T)(long double)v.u == (T)(double)v.u ? (T)v.u : (o.open = true, (T)0);
		case Val::Float: if (fabs(v.d) > std::numeric_limits<T>::max() && !isinf(v.d)) o.open = true; return (T)v.d;
		case Val::List: case Val::Map: case Val::Blob: o.thrown = true; return 0;
		default: o.open = true; return 0;
		}
	}
	static const char *name() { return "a float"; }
	static T gen(Ctx &c) {
		double d = gen_double(c, false);
		if (fabs(d) > std::numeric_limits<T>::max()) d = 1.5;
		return (T)d;
	}
	static Val val(T v) { return Val::real((double)v); }
};
template<> struct Conv<string, void> {
	static string get(const Val &v, Out &o) {
		if (v.t == Val::Str) return v.s;
		if (v.t == Val::Int) return vp::fmt("%lld", (long long)v.i);
		if (v.t == Val::UInt) return vp::fmt("%llu", (unsigned long long)v.u);
		if (v.t == Val::List || v.t == Val::Map) { o.thrown = true; return ""; }
		o.open = true;
		return "";
	}
	static const char *name() { return "string"; }
	static string gen(Ctx &c) { GenOpt o; o.text = TK_ANY; o.nuls = true; return gen_text(c, o); }
	static Val val(const string &v) { return Val::str(v); }
};
template<class T> struct Conv<std::complex<T>, void> {
	typedef std::complex<T> C;
	static C get(const Val &v, Out &o) {
		if (v.t == Val::Null) return C();
		if (v.isnum()) return C(Conv<T>::get(v, o), T());
		if (v.t == Val::List) {
			T r = v.l.size() > 0 ? Conv<T>::get(v.l[0], o) : T(), i = v.l.size() > 1 ? Conv<T>::get(v.l[1], o) : T();
			return C(r, i);
		}
		if (v.t == Val::Map) {
			auto r = v.m.find("real"), i = v.m.find("imag");
			return C(r == v.m.end() ? T() : Conv<T>::get(r->second, o), i == v.m.end() ? T() : Conv<T>::get(i->second, o));
		}
		o.thrown = true;
		return C();
	}
	static const char *name() { return "complex"; }
	static C gen(Ctx &c) { T r = Conv<T>::gen(c); return C(r, Conv<T>::gen(c)); }
};
template<class T> struct Conv<std::vector<T>, void> {
	static std::vector<T> get(const Val &v, Out &o) {
		std::vector<T> r;
		if (v.t != Val::List) { if (v.t == Val::Null) o.open = true; else o.thrown = true; return r; }
		for (auto &x : v.l) r.push_back(Conv<T>::get(x, o));
		return r;
	}
	static const char *name() { return "vector"; }
	static std::vector<T> gen(Ctx &c) { std::vector<T> r; while (r.size() < 6 && c.more(2)) r.push_back(Conv<T>::gen(c)); return r; }
	static Val val(const std::vector<T> &v) { Val r = Val::list(); for (size_t i = 0; i < v.size(); ++i) r.l.push_back(Conv<T>::val(v[i])); return r; }
};
template<class T> struct Conv<std::map<string, T>, void> {
	static std::map<string, T> get(const Val &v, Out &o) {
		std::map<string, T> r;
		if (v.t != Val::Map) { if (v.t == Val::Null) o.open = true; else o.thrown = true; return r; }
		for (auto &x : v.m) r[x.first] = Conv<T>::get(x.second, o);
		return r;
	}
	static const char *name() { return "map"; }
	static std::map<string, T> gen(Ctx &c) { GenOpt o; std::map<string, T> r; while (r.size() < 6 && c.more(2)) r[gen_key(c, o)] = Conv<T>::gen(c); return r; }
	static Val val(const std::map<string, T> &v) { Val r = Val::map(); for (auto &x : v) r.m[x.first] = Conv<T>::val(x.second); return r; }
};

// ---- a value that is mostly convertible
template<class T> struct Near { static Val gen(Ctx &c) { GenOpt o; o.maxdepth = 2; return c.chance(1, 12) ? gen_val(c, o) : gen_scalar(c, o); } };
template<class T> Val near_number(Ctx &c) {
	typedef std::numeric_limits<T> L;
	switch (c.pick(5)) {
	case 0: return Val::integer(c.range(0, 100));
	case 1: { Val v = Conv<T>::val(Conv<T>::gen(c)); return v; }
	case 2: return Val::real((double)(std::is_signed<T>::value ? -1 : 1) * (double)c.range(0, 200) / 4);
	case 3: return c.coin() ? Val::integer((intmax_t)L::min()) : Val::uinteger((uintmax_t)(L::max() > 0 ? (uintmax_t)L::max() : 0));
	default: { GenOpt o; return gen_scalar(c, o); }
	}
}
#define NEARNUM(T) template<> struct Near<T> { static Val gen(Ctx &c) { return near_number<T>(c); } };
NEARNUM(signed char) NEARNUM(unsigned char) NEARNUM(char) NEARNUM(short) NEARNUM(unsigned short) NEARNUM(int) NEARNUM(unsigned) NEARNUM(long) NEARNUM(unsigned long) NEARNUM(long long) NEARNUM(unsigned long long)
template<> struct Near<long double> { static Val gen(Ctx &c) { return c.coin() ? near_number<unsigned long>(c) : near_number<long>(c); } };
template<class T> struct Near<std::vector<T> > {
	static Val gen(Ctx &c) { if (c.chance(1, 15)) return Near<int>::gen(c); Val r = Val::list(); while (r.l.size() < 6 && c.more(2)) r.l.push_back(Near<T>::gen(c)); return r; }
};
template<class T> struct Near<std::map<string, T> > {
	static Val gen(Ctx &c) { if (c.chance(1, 15)) return Near<int>::gen(c); GenOpt o; Val r = Val::map(); while (r.m.size() < 6 && c.more(2)) r.m[gen_key(c, o)] = Near<T>::gen(c); return r; }
};
template<class T> struct Near<std::complex<T> > {
	static Val gen(Ctx &c) {
		switch (c.pick(5)) {
		case 0: return Near<T>::gen(c);
		case 1: return Val::null();
		case 2: { Val r = Val::list(); while (r.l.size() < 4 && c.more(2)) r.l.push_back(Near<T>::gen(c)); return r; }
		case 3: { Val r = Val::map(); if (c.coin()) r.m["real"] = Near<T>::gen(c); if (c.coin()) r.m["imag"] = Near<T>::gen(c); if (c.chance(1, 4)) r.m["x"] = Near<T>::gen(c); return r; }
		default: { GenOpt o; return gen_scalar(c, o); }
		}
	}
};

size_t weight(const Val &v) {
	if (v.t == Val::List) return v.l.size();
	if (v.t == Val::Map) return v.m.size();
	if (v.t == Val::Int) return v.i < 0 || v.i > 1 ? 2 : 0;
	if (v.t == Val::UInt) return v.u > 1 ? 2 : 0;
	return v.t == Val::Float ? 2 : 0;
}
void unchanged(const Variant &v, const Val &was, const char *by) {
	Val now = from_variant(v);
	if (!val_same(now, was)) vp::fail(vp::fmt("%s changed the document: %s", by, val_diff(was, now).c_str()));
}

// reading a T out of a document in every way
template<class T> void reading(Ctx &c) {
	Val v = Near<T>::gen(c);
	GenOpt go; go.maxdepth = 2;
	std::vector<Elem> path;
	Val doc = Val::map();
	string key = gen_key(c, go);
	if (c.coin()) { GenOpt o2 = go; o2.maxdepth = 1; doc.m[gen_key(c, go)] = gen_val(c, o2); }
	doc.m[key] = v;
	c.note("read %s as %s from %s", val_str(v).c_str(), Conv<T>::name(), val_str(doc).c_str());
	Variant d = to_variant(doc);
	const Variant &cd = d;
	Out o;
	T want = Conv<T>::get(v, o);
	size_t way = c.pick(9);
	T got = c.coin() ? T() : Conv<T>::gen(c), before = got, def = c.coin() ? T() : Conv<T>::gen(c);
	bool threw = false;
	Path p; p.push_back(PathElement(key));
	if (way == 8) { path.push_back(Elem(0u)); }
	try {
		switch (way) {
		case 0: got = to_variant(v).As<T>(); break;
		case 1: got = variant_cast<T>(cd.Get(key)); break;
		case 2: { VariantRef r = d[key]; got = r.template As<T>(); break; }
		case 3: cd.GetInto(got, key); break;
		case 4: cd.GetInto(got, key, def); break;
		case 5: cd.GetPathInto(got, p); break;
		case 6: got = cd.GetPath(p).template As<T>(); break;
		case 7: got = cd[key].template As<T>(); break;
		case 8: { Variant l; l.Append(to_variant(v)); got = l[0].template As<T>(); break; }
		}
	} catch (std::exception &x) { threw = true; o.why += x.what(); }
	if (o.thrown && !o.open) VP_CHECK(threw, "way %zu: %s was read as %s", way, val_str(v).c_str(), Conv<T>::name());
	if (!o.thrown && !o.open) {
		VP_CHECK(!threw, "way %zu: reading %s as %s failed: %s", way, val_str(v).c_str(), Conv<T>::name(), o.why.c_str());
		if (!same(got, want)) vp::fail(vp::fmt("way %zu: %s read as %s has another value", way, val_str(v).c_str(), Conv<T>::name()));
	}
	if (threw && way >= 3 && way <= 5) VP_CHECK(same(got, before), "a failed read changed the target");
	unchanged(d, doc, "reading");
	if (weight(v) >= 2) c.nontrivial(vp::hashmix(val_hash(v), vp::hash64(__PRETTY_FUNCTION__) + way));
}
// defaults for missing elements
template<class T> void defaults(Ctx &c) {
	GenOpt go; go.maxdepth = 2;
	Val doc = gen_map(c, go);
	string key = gen_key(c, go);
	doc.m.erase(key);
	T def = Conv<T>::gen(c), got = T();
	Variant d = to_variant(doc);
	const Variant &cd = d;
	Path p; p.push_back(PathElement(key));
	if (c.coin()) p.push_back(PathElement(gen_key(c, go)));
	size_t way = c.pick(3);
	c.note("default for missing %s in %s, way %zu", vp::quote(key).c_str(), val_str(doc).c_str(), way);
	if (way == 0) cd.GetInto(got, key, def);
	else if (way == 1) cd.GetPathInto(got, p, def);
	else got = variant_cast<T>(cd.Get(key, def));
	VP_CHECK(same(got, def), "the default was not returned");
	bool threw = false;
	T other = Conv<T>::gen(c), keep = other;
	try { if (way == 0) cd.GetInto(other, key); else cd.GetPathInto(other, p); } catch (std::exception &) { threw = true; }
	VP_CHECK(threw, "a missing element was read without default");
	VP_CHECK(same(other, keep), "a failed read changed the target");
	unchanged(d, doc, "reading with default");
	if (weight(doc) >= 2) c.nontrivial(vp::hashmix(val_hash(doc), vp::hash64(key + __PRETTY_FUNCTION__)));
}
// building from a T and reading it back
template<class T> void building(Ctx &c) {
	T x = Conv<T>::gen(c);
	Val want = Conv<T>::val(x);
	c.note("build %s from %s", val_str(want).c_str(), Conv<T>::name());
	Variant v, alias;
	GenOpt go; go.maxdepth = 2;
	Val old = gen_val(c, go);
	size_t way = c.pick(5);
	switch (way) {
	case 0: { Variant w(x); v = w; break; }
	case 1: v = to_variant(old); alias = v; v = x; break;
	case 2: v = to_variant(old); alias = v; v.Assign(x); break;
	case 3: { Variant m; m["k"] = to_variant(old); alias = m.Get("k"); m["k"] = x; v = m["k"]; break; }
	case 4: { Variant l; l.Append(x); v = l[0]; break; }
	}
	Val got = from_variant(v);
	if (!val_same(got, want)) vp::fail(vp::fmt("way %zu: built %s, not %s", way, val_str(got).c_str(), val_str(want).c_str()));
	if (way >= 1 && way <= 3) unchanged(alias, old, "assigning to another handle");
	T back = v.As<T>();
	VP_CHECK(same(back, x), "way %zu: casting back gives another value", way);
	if (weight(want) >= 2) c.nontrivial(vp::hashmix(val_hash(want), vp::hash64(__PRETTY_FUNCTION__) + way));
}
// assigning the container of a variant, or of a part of it, to the variant
void from_own(Ctx &c) {
	GenOpt go; go.maxdepth = 3;
	Val doc = gen_container(c, go);
	Variant d = to_variant(doc), other = d;
	const Val *part = &doc;
	Variant at = d;
	c.note("assign a container inside %s", val_str(doc).c_str());
	while (c.coin()) {
		std::vector<std::pair<string, const Val *> > in;
		for (auto &x : part->m) if (x.second.t == Val::Map || x.second.t == Val::List) in.push_back({x.first, &x.second});
		for (size_t i = 0; i < part->l.size(); ++i) if (part->l[i].t == Val::Map || part->l[i].t == Val::List) in.push_back({vp::fmt("%zu", i), &part->l[i]});
		if (in.empty()) break;
		auto &k = in[c.pick(in.size())];
		Variant next = part->t == Val::Map ? Variant(at.Get(k.first)) : Variant(at.Get(atoi(k.first.c_str())));
		at = next;
		part = k.second;
	}
	Val want = *part;
	size_t way = c.pick(3);
	if (part->t == Val::List) {
		Variant::List &l = at.AsList();
		at = Variant();                                // the document alone keeps the part alive
		if (way != 2) other = Variant();
		if (way == 1) d.Assign(l); else d = l;
	} else {
		Variant::Map &m = at.AsMap();
		at = Variant();
		if (way != 2) other = Variant();
		if (way == 1) d.Assign(m); else d = m;
	}
	Val got = from_variant(d);
	if (!val_same(got, want)) vp::fail(vp::fmt("assigning an own container gives %s, not %s", val_str(got).c_str(), val_str(want).c_str()));
	if (way == 2) unchanged(other, doc, "assigning to another handle");
	if (weight(doc) >= 2) c.nontrivial(vp::hashmix(val_hash(doc), val_hash(want) + way));
}
// numbers through AsNumber
template<class T> void number(Ctx &c) {
	Val v = Near<T>::gen(c);
	Out o;
	T want = Conv<T>::get(v, o);
	c.note("number %s as %s", val_str(v).c_str(), Conv<T>::name());
	Variant d = to_variant(v);
	T got = T();
	bool threw = false;
	if (o.open) return;
	try { got = d.AsNumber<T>(); } catch (std::exception &) { threw = true; }
	VP_CHECK(threw == o.thrown, threw ? "%s is not accepted as number" : "%s was accepted as number", val_str(v).c_str());
	if (!threw) VP_CHECK(same(got, want), "AsNumber of %s has another value", val_str(v).c_str());
	unchanged(d, v, "reading");
	if (weight(v) >= 2) c.nontrivial(vp::hashmix(val_hash(v), vp::hash64(__PRETTY_FUNCTION__)));
}
typedef void (*Fn)(Ctx &);
template<class T> void put(std::vector<Fn> &f) {
	f.push_back(reading<T>); f.push_back(reading<std::vector<T> >); f.push_back(reading<std::map<string, T> >);
	f.push_back(defaults<T>); f.push_back(building<T>); f.push_back(building<std::vector<T> >); f.push_back(building<std::map<string, T> >);
}
template<class T> void put_number(std::vector<Fn> &f) { put<T>(f); f.push_back(number<T>); }
std::vector<Fn> make() {
	std::vector<Fn> f;
	f.push_back(reading<int>);
	put<bool>(f); put<string>(f);
	put_number<char>(f); put_number<signed char>(f); put_number<unsigned char>(f); put_number<short>(f); put_number<unsigned short>(f);
	put_number<int>(f); put_number<unsigned>(f); put_number<long>(f); put_number<unsigned long>(f); put_number<long long>(f); put_number<unsigned long long>(f);
	put_number<float>(f); put_number<double>(f); put_number<long double>(f);
	f.push_back(reading<std::complex<float> >); f.push_back(reading<std::complex<double> >); f.push_back(reading<std::vector<std::complex<double> > >);
	f.push_back(reading<std::vector<std::vector<int> > >); f.push_back(building<std::vector<std::vector<int> > >);
	f.push_back(reading<std::map<string, std::vector<double> > >); f.push_back(building<std::map<string, std::vector<double> > >);
	f.push_back(reading<std::vector<std::map<string, string> > >); f.push_back(building<std::vector<std::map<string, string> > >);
	f.push_back(reading<std::map<string, std::map<string, unsigned> > >); f.push_back(building<std::map<string, std::map<string, unsigned> > >);
	f.push_back(defaults<std::vector<int> >); f.push_back(defaults<std::map<string, string> >);
	for (int i = 0; i < 12; ++i) f.push_back(from_own);
	return f;
}
}
void vp_case(Ctx &c) {
	static const std::vector<Fn> fns = make();
	c.evals(1);
	fns[c.pick(fns.size())](c);
}

// Equality and order of variants against comparison of the plain values.
#include "core.h"
#include <math.h>
using namespace libvariant;
using std::string;
using vp::fmt;

const char *vp_rule = "a pair of values of comparable types, or of containers or blobs of the same kind";

static bool has_nan(const Val &v) {
	if (v.t == Val::Float && v.d != v.d) return true;
	for (auto &x : v.l) if (has_nan(x)) return true;
	for (auto &x : v.m) if (has_nan(x.second)) return true;
	return false;
}

static void renumber(vp::Ctx &c, Val &v) {      // same value, other number type
	if (v.t == Val::Int && v.i >= 0 && c.coin()) v = Val::uinteger(v.i);
	else if (v.t == Val::UInt && v.u <= (uint64_t)INT64_MAX && c.coin()) v = Val::integer(v.u);
	else if (v.t == Val::Int && (int64_t)(double)(v.i / 2) * 2 == v.i && llabs(v.i) < (1ll << 53)) v = Val::real((double)v.i);
	else if (v.t == Val::Float && v.d == floor(v.d) && fabs(v.d) < 9e18) v = Val::integer((int64_t)v.d);
	for (auto &x : v.l) if (c.coin()) renumber(c, x);
	for (auto &x : v.m) if (c.coin()) renumber(c, x.second);
}

static void resplit(vp::Ctx &c, Val &v) {       // same bytes, other buffers
	if (v.t == Val::Blob) {
		v.cuts.clear(); v.noparts = false;
		size_t left = v.s.size();
		while (left && c.chance(2, 3)) { size_t n = c.pick(left + 1); v.cuts.push_back(n); left -= n; }
		if (c.chance(1, 4)) v.cuts.push_back(0);
		if (v.s.empty() && c.chance(1, 3)) { v.noparts = true; v.cuts.clear(); }
	}
	for (auto &x : v.l) resplit(c, x);
	for (auto &x : v.m) resplit(c, x.second);
}

static Val near_number(vp::Ctx &c) {
	static const double f[] = {0.0, -0.0, 1, -1, 0.5, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, -9223372036854775808.0,
		18446744073709551616.0, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, NAN};
	switch (c.pick(3)) {
	case 0: { static const int64_t k[] = {0, 1, -1, INT64_MAX, INT64_MIN, 9007199254740993ll, INT64_MAX - 1, INT64_MIN + 1}; return Val::integer(k[c.pick(8)]); }
	case 1: { static const uint64_t k[] = {0, 1, UINT64_MAX, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1, 9007199254740993ull, UINT64_MAX - 1}; return Val::uinteger(k[c.pick(8)]); }
	default: return Val::real(f[c.pick(16)]);
	}
}

struct Box { Variant plain, holder; std::unique_ptr<VariantRef> ref; const Variant *v; };
static void make(vp::Ctx &c, const Val &x, Box &b) {
	b.plain = to_variant(x);
	switch (c.pick(3)) {
	case 0: b.v = &b.plain; break;
	case 1: b.ref.reset(new VariantRef(b.plain)); b.v = b.ref.get(); break;
	default:
		b.ref.reset(new VariantRef(b.holder["k"]["l"]));        // taken before the element exists
		b.holder["k"]["l"] = b.plain;
		b.v = b.ref.get();
	}
}

static void compare(const Val &a, const Val &b, const Variant &x, const Variant &y) {
	string what = val_str(a) + " and " + val_str(b);
	if (has_nan(a) || has_nan(b)) {
		// NaN differs from every number; whether it equals itself is open
		if (a.isnum() && b.isnum() && (a.t != Val::Float || b.t != Val::Float || a.d == a.d || b.d == b.d))
			VP_CHECK(!(x == y) && x != y && !(y == x), "%s compare equal", what.c_str());
		(void)(x == y); (void)(x < y); (void)(x <= y);
		return;
	}
	bool eq = val_equal(a, b);
	VP_CHECK((x == y) == eq, "%s: == is %d", what.c_str(), x == y);
	VP_CHECK((y == x) == eq, "%s: == of the exchanged values is %d", what.c_str(), y == x);
	VP_CHECK((x != y) == !eq, "%s: != is %d", what.c_str(), x != y);
	bool comparable = a.t == b.t || (a.isnum() && b.isnum());
	VP_CHECK(x.Comparable(y) == comparable, "%s: Comparable is %d", what.c_str(), x.Comparable(y));
	int o = 9;
	if (a.isnum() && b.isnum()) o = num_cmp(a, b);
	else if (a.t == Val::Str && b.t == Val::Str) { int k = a.s.compare(b.s); o = k < 0 ? -1 : k > 0; }
	else if (a.t == Val::Bool && b.t == Val::Bool) o = (int)a.b - (int)b.b;
	else if (eq) o = 0;
	if (o == 9 || o == 2) return;
	int cv = x.Compare(y);
	VP_CHECK((cv < 0 ? -1 : cv > 0) == o, "%s: Compare is %d, expected %d", what.c_str(), cv, o);
	VP_CHECK((x < y) == (o < 0) && (x > y) == (o > 0) && (x <= y) == (o <= 0) && (x >= y) == (o >= 0),
		"%s: <%d >%d <=%d >=%d, expected order %d", what.c_str(), x < y, x > y, x <= y, x >= y, o);
}

void vp_case(vp::Ctx &c) {
	GenOpt o; o.nonfinite = c.chance(1, 6); o.nuls = true; o.text = TK_ANY; o.big = false; o.maxdepth = 3; o.simple_keys = true;
	std::vector<Val> v(1);
	unsigned kind = c.pick(4);
	auto fresh = [&]() -> Val {
		switch (kind) {
		case 0: return near_number(c);
		case 1: return gen_blob(c, o);
		case 2: return gen_val(c, o);
		default: return gen_scalar(c, o);
		}
	};
	v[0] = fresh();
	unsigned n = 2 + c.pick(2);
	while (v.size() < n) {
		Val x = v[c.pick(v.size())];
		switch (c.weighted({3, 3, 2, 2})) {
		case 0: renumber(c, x); resplit(c, x); break;
		case 1: mutate_val(c, x, o); break;
		case 2: if (x.t == Val::Blob && c.coin()) { if (c.coin() && !x.s.empty()) x.s.resize(c.pick(x.s.size())); else x.s += gen_bytes(c, 3); x.cuts.clear(); x.noparts = false; resplit(c, x); }
			else if (x.t == Val::Str && c.coin()) x.s += c.coin() ? string(1, '\0') : "a";
			else x = fresh();
			break;
		default: x = fresh();
		}
		v.push_back(x);
	}
	std::vector<Box> b(n);
	for (unsigned i = 0; i < n; ++i) { c.note("%u: %s", i, val_str(v[i]).c_str()); make(c, v[i], b[i]); }
	bool nt = false;
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
		compare(v[i], v[j], *b[i].v, *b[j].v);
		c.evals(1);
		if (i != j && (v[i].t == v[j].t || (v[i].isnum() && v[j].isnum())) && v[i].t != Val::Null) nt = true;
	}
	for (unsigned i = 0; i < n; ++i)
		VP_CHECK(val_same(from_variant(*b[i].v), v[i]), "comparing changed operand %u", i);
	if (nt) c.nontrivial(vp::hashmix(val_hash(v[0]), val_hash(v[1])));
}

// Conversions and arithmetic against a reference computation.
#include "core.h"
#include <math.h>
#include <complex>
#include <limits.h>
using namespace libvariant;
using std::string;
using vp::fmt;

const char *vp_rule = "a conversion of a text or number, or an operator applied to two operands of which at least one is a number";

typedef long double ld;
static const ld TWO63 = 9223372036854775808.0L, TWO64 = 18446744073709551616.0L;

static Val gen_num(vp::Ctx &c) {
	switch (c.pick(3)) {
	case 0: return Val::integer(c.coin() ? (int64_t)c.pick(20) - 10 : gen_int(c));
	case 1: return Val::uinteger(c.coin() ? c.pick(20) : gen_uint(c));
	default: return Val::real(c.coin() ? (double)((int)c.pick(80) - 40) / 4 : gen_double(c, true));
	}
}

static string gen_num_text(vp::Ctx &c) {
	static const char *words[] = {"", "true", "false", "no", "yes", "N", "f", "FALSE", "nope", "fals", "00", "0x", " 0 ", "0 0", "on", "-", "+", ".", "e5", "\t", "falsey", "NO", "nO \n", "-0", "000000"};
	static const char *tails[] = {"", "", "", " ", " x", "abc", ".", ",5", "\n"};
	switch (c.weighted({3, 3, 2, 2, 2})) {
	case 0: return (c.chance(1, 4) ? " " : "") + string(c.chance(1, 6) ? "+" : "") + fmt("%llu", (unsigned long long)gen_uint(c)) + tails[c.pick(9)];
	case 1: return string(c.chance(1, 4) ? "\t " : "") + fmt("%lld", (long long)gen_int(c)) + tails[c.pick(9)];
	case 2: return fmt("%.*g", (int)c.range(1, 17), gen_double(c, false)) + tails[c.pick(5)];
	case 3: return words[c.pick(25)];
	default: return string(c.coin() ? "-" : "") + string(c.range(18, 24), (char)('1' + c.pick(9)));
	}
}

static bool parse_bool(const string &s) {     // no, false and prefixes of them, and zeros
	size_t b = 0, e = s.size();
	while (b < e && isspace((unsigned char)s[b])) ++b;
	while (e > b && isspace((unsigned char)s[e - 1])) --e;
	string t;
	for (size_t i = b; i < e; ++i) t += tolower((unsigned char)s[i]);
	if (t.empty()) return true;
	if (string("no").compare(0, t.size(), t) == 0 || string("false").compare(0, t.size(), t) == 0) return false;
	return t.find_first_not_of('0') != string::npos;
}

// leading whitespace, sign, digits; anything may follow
static bool parse_int(const string &s, bool &neg, unsigned __int128 &mag, size_t &end) {
	size_t i = 0;
	while (i < s.size() && isspace((unsigned char)s[i])) ++i;
	neg = false;
	if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	size_t st = i;
	mag = 0;
	while (i < s.size() && isdigit((unsigned char)s[i])) { if (mag < ((unsigned __int128)1 << 100)) mag = mag * 10 + (s[i] - '0'); ++i; }
	end = i;
	return i > st;
}

template<class F> static bool throws(F fn, string *msg = 0) {
	try { fn(); } catch (const std::exception &e) { if (msg) *msg = e.what(); return true; }
	return false;
}

static void conversions(vp::Ctx &c) {
	GenOpt o; o.nonfinite = true; o.text = TK_ANY; o.nuls = true; o.maxdepth = 2; o.big = false; o.longstr = false;
	Val x;
	switch (c.weighted({5, 5, 2, 1})) {
	case 0: x = gen_num(c); break;
	case 1: x = Val::str(gen_num_text(c)); break;
	case 2: x = gen_scalar(c, o); break;
	default: x = gen_val(c, o); break;
	}
	Variant plain = to_variant(x), holder;
	holder["k"] = plain;
	VariantRef h = c.coin() ? VariantRef(plain) : holder["k"];
	const Variant &v = c.coin() ? (const Variant&)plain : h;
	c.note("value %s", val_str(x).c_str());
	string n = val_str(x);
	string msg;
	auto num = [&](ld val, int64_t i, bool iok, uint64_t u, bool uok, bool b) {
		VP_CHECK(v.AsBool() == b, "%s as bool is %d", n.c_str(), v.AsBool());
		VP_CHECK(v.AsLongDouble() == val || (val != val && v.AsLongDouble() != v.AsLongDouble()), "%s as float is %Lg", n.c_str(), v.AsLongDouble());
		VP_CHECK(v.AsDouble() == (double)val || val != val, "%s as double is %g", n.c_str(), v.AsDouble());
		VP_CHECK(v.As<double>() == (double)val || val != val, "%s as double is %g", n.c_str(), v.As<double>());
		if (val == val && fabsl(val) < 3e38L) VP_CHECK(v.As<float>() == (float)(double)val, "%s as float is %g", n.c_str(), (double)v.As<float>());
		if (iok) {
			VP_CHECK(v.AsInt() == i, "%s as int is %lld", n.c_str(), (long long)v.AsInt());
			VP_CHECK(v.As<long>() == i && v.As<long long>() == i, "%s as long is wrong", n.c_str());
			if (i >= INT_MIN && i <= INT_MAX) VP_CHECK(v.As<int>() == i, "%s as int is %d", n.c_str(), v.As<int>());
			if (i >= -32768 && i <= 32767) VP_CHECK(v.As<short>() == i, "%s as short is %d", n.c_str(), v.As<short>());
			if (i >= -128 && i <= 127) VP_CHECK((signed char)v.As<char>() == i, "%s as char is %d", n.c_str(), v.As<char>());
			if (i >= 0 && i <= 127) VP_CHECK(v.As<signed char>() == i, "%s as signed char is %d", n.c_str(), v.As<signed char>());
		}
		if (uok) {
			VP_CHECK(v.AsUnsigned() == u, "%s as unsigned is %llu", n.c_str(), (unsigned long long)v.AsUnsigned());
			VP_CHECK(v.As<unsigned long>() == u && v.As<unsigned long long>() == u, "%s as unsigned long is wrong", n.c_str());
			if (u <= UINT_MAX) VP_CHECK(v.As<unsigned>() == u, "%s as unsigned is %u", n.c_str(), v.As<unsigned>());
			if (u <= 65535) VP_CHECK(v.As<unsigned short>() == u, "%s as unsigned short is %u", n.c_str(), v.As<unsigned short>());
			if (u <= 255) VP_CHECK(v.As<unsigned char>() == u, "%s as unsigned char is %u", n.c_str(), v.As<unsigned char>());
		}
	};
	switch (x.t) {
	case Val::Null: num(0, 0, true, 0, true, false); VP_CHECK(v.AsString() == "", "null as string is %s", v.AsString().c_str()); break;
	case Val::Bool: num(x.b, x.b, true, x.b, true, x.b); VP_CHECK(v.AsString() == (x.b ? "true" : "false"), "%s as string is %s", n.c_str(), v.AsString().c_str()); break;
	case Val::Int: {
		num((ld)x.i, x.i, true, (uint64_t)x.i, true, x.i != 0);
		string t = v.AsString();
		VP_CHECK(t == fmt("%lld", (long long)x.i), "%s as string is %s", n.c_str(), t.c_str());
		VP_CHECK(Variant(t).AsInt() == x.i && Variant(t).AsLongDouble() == (ld)x.i, "text %s does not read back", t.c_str());
		break;
	}
	case Val::UInt: {
		num((ld)x.u, (int64_t)x.u, true, x.u, true, x.u != 0);
		string t = v.AsString();
		VP_CHECK(t == fmt("%llu", (unsigned long long)x.u), "%s as string is %s", n.c_str(), t.c_str());
		VP_CHECK(Variant(t).AsUnsigned() == x.u && Variant(t).AsLongDouble() == (ld)x.u, "text %s does not read back", t.c_str());
		break;
	}
	case Val::Float: {
		bool iok = x.d > -TWO63 - 1 && x.d < TWO63, uok = x.d > -1 && x.d < TWO64;
		num(x.d, iok ? (int64_t)x.d : 0, iok, uok ? (uint64_t)x.d : 0, uok, x.d != 0);
		string t = v.AsString();
		if (isfinite(x.d) && (fabs(x.d) > 1e-290 || x.d == 0)) {
			ld r = Variant(t).AsLongDouble();
			VP_CHECK(fabsl(r - x.d) <= fabsl((ld)x.d) * 1e-5L, "%s as string is %s", n.c_str(), t.c_str());
			VP_CHECK(std::signbit(r) == std::signbit(x.d), "%s as string is %s", n.c_str(), t.c_str());
		}
		break;
	}
	case Val::Str: {
		VP_CHECK(v.AsString() == x.s && v.As<string>() == x.s, "%s as string is %s", n.c_str(), vp::quote(v.AsString()).c_str());
		bool b = parse_bool(x.s);
		VP_CHECK(v.AsBool() == b, "%s as bool is %d", n.c_str(), v.AsBool());
		bool neg; unsigned __int128 mag; size_t end;
		bool isint = parse_int(x.s, neg, mag, end);
		bool iok = isint && (neg ? mag <= (unsigned __int128)1 << 63 : mag < (unsigned __int128)1 << 63);
		int64_t got = 0;
		bool threw = throws([&] { got = v.AsInt(); }, &msg);
		VP_CHECK(threw == !iok, "%s as int %s", n.c_str(), threw ? msg.c_str() : fmt("is %lld", (long long)got).c_str());
		if (iok) VP_CHECK(got == (int64_t)(neg ? -mag : mag), "%s as int is %lld", n.c_str(), (long long)got);
		uint64_t gu = 0;
		bool uok = isint && mag < (unsigned __int128)1 << 64;
		threw = throws([&] { gu = v.AsUnsigned(); }, &msg);
		if (!neg || !isint) {                      // negative text as unsigned: open
			VP_CHECK(threw == !uok, "%s as unsigned %s", n.c_str(), threw ? msg.c_str() : fmt("is %llu", (unsigned long long)gu).c_str());
			if (uok) VP_CHECK(gu == (uint64_t)mag, "%s as unsigned is %llu", n.c_str(), (unsigned long long)gu);
		}
		ld gf = 0;
		threw = throws([&] { gf = v.AsLongDouble(); }, &msg);
		if (isint && (end == x.s.size() || isspace((unsigned char)x.s[end]))) {
			VP_CHECK(!threw, "%s as float: %s", n.c_str(), msg.c_str());
			VP_CHECK(gf == (neg ? -(ld)mag : (ld)mag), "%s as float is %Lg", n.c_str(), gf);
		} else if (!isint && x.s.find_first_of("0123456789infaINFA.") == string::npos) {
			VP_CHECK(threw, "%s as float is %Lg", n.c_str(), gf);
		} else {
			// plain decimal text up to the end
			char *e = 0;
			ld want = strtold(x.s.c_str(), &e);
			if (e && *e == 0 && e == x.s.c_str() + x.s.size() && x.s.find_first_of("xXpPnN") == string::npos && isdigit((unsigned char)x.s[x.s.size() - 1]) && isfinite(want))
				VP_CHECK(!threw && gf == want, "%s as float %s", n.c_str(), threw ? msg.c_str() : fmt("is %Lg", gf).c_str());
		}
		break;
	}
	case Val::List: {
		bool allnum = true, small = true;
		for (auto &y : x.l) if (!y.isnum() && y.t != Val::Null && y.t != Val::Bool) allnum = false; else if (y.t == Val::Float) small = false;
		if (allnum && small) {
			std::vector<long> r = v.As<std::vector<long> >();
			VP_CHECK(r.size() == x.l.size(), "%s as a vector has %zu elements", n.c_str(), r.size());
			for (size_t i = 0; i < r.size(); ++i) VP_CHECK(r[i] == (x.l[i].t == Val::Int ? x.l[i].i : x.l[i].t == Val::UInt ? (long)x.l[i].u : x.l[i].t == Val::Bool ? (long)x.l[i].b : 0), "%s as a vector: element %zu is %ld", n.c_str(), i, r[i]);
		}
	} // fall through
	default:
		VP_CHECK(throws([&] { v.AsInt(); }), "%s as int did not fail", n.c_str());
		VP_CHECK(throws([&] { v.AsUnsigned(); }), "%s as unsigned did not fail", n.c_str());
		VP_CHECK(throws([&] { v.AsLongDouble(); }), "%s as float did not fail", n.c_str());
		VP_CHECK(throws([&] { v.AsBool(); }), "%s as bool did not fail", n.c_str());
		if (x.t != Val::Blob) VP_CHECK(throws([&] { v.AsString(); }), "%s as string did not fail", n.c_str());
	}
	// the type predicates agree with the stored type
	VP_CHECK(v.IsNull() == (x.t == Val::Null) && v.IsBool() == (x.t == Val::Bool) && v.IsString() == (x.t == Val::Str) && v.IsList() == (x.t == Val::List)
		&& v.IsMap() == (x.t == Val::Map) && v.IsBlob() == (x.t == Val::Blob) && v.IsNumber() == x.isnum() && v.IsFloat() == (x.t == Val::Float)
		&& v.GetType() == (x.t == Val::Int ? Variant::IntegerType : x.t == Val::UInt ? Variant::UnsignedType : v.GetType()), "type predicates of %s are wrong", n.c_str());
	VP_CHECK(val_same(from_variant(plain), x) && val_same(from_variant(holder["k"]), x), "reading changed %s", n.c_str());
	if (x.isnum() || x.t == Val::Str) c.nontrivial(val_hash(x));
}

static const char *opname[] = {"+", "-", "*", "/", "%"};
enum Want { VALUE, ERROR, OPEN };

static Want arith(unsigned op, const Val &a, const Val &b, Val &r, ld &f) {
	if (!a.isnum() || !b.isnum()) return ERROR;
	if (a.t == Val::Float || b.t == Val::Float) {
		auto real = [](const Val &x) { return x.t == Val::Int ? (ld)x.i : x.t == Val::UInt ? (ld)x.u : (ld)x.d; };
		ld x = real(a), y = real(b);
		// a negative integer against an unsigned is converted before, so is not seen here
		switch (op) { case 0: f = x + y; break; case 1: f = x - y; break; case 2: f = x * y; break; case 3: f = x / y; break; default: f = fmodl(x, y); }
		r = Val::real((double)f);
		return VALUE;
	}
	if (a.t == Val::UInt || b.t == Val::UInt) {
		uint64_t x = a.t == Val::UInt ? a.u : (uint64_t)a.i, y = b.t == Val::UInt ? b.u : (uint64_t)b.i;
		if (op >= 3 && y == 0) return ERROR;
		r = Val::uinteger(op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : op == 3 ? x / y : x % y);
		return VALUE;
	}
	int64_t k = 0;
	if (op >= 3 && b.i == 0) return ERROR;
	if (op >= 3 && a.i == INT64_MIN && b.i == -1) return OPEN;      // must come back, result is open
	if (op == 0 ? __builtin_add_overflow(a.i, b.i, &k) : op == 1 ? __builtin_sub_overflow(a.i, b.i, &k) : op == 2 ? __builtin_mul_overflow(a.i, b.i, &k) : false) return OPEN;
	if (op == 3) k = a.i / b.i;
	if (op == 4) k = a.i % b.i;
	r = Val::integer(k);
	return VALUE;
}

static void check_result(const Variant &got, const Val &want, ld f, const string &what) {
	Variant::Type_t t = want.t == Val::Int ? Variant::IntegerType : want.t == Val::UInt ? Variant::UnsignedType : Variant::FloatType;
	VP_CHECK(got.GetType() == t, "%s has type %d, expected %s", what.c_str(), (int)got.GetType(), val_str(want).c_str());
	if (want.t == Val::Int) VP_CHECK(got.AsInt() == want.i, "%s is %lld, expected %lld", what.c_str(), (long long)got.AsInt(), (long long)want.i);
	else if (want.t == Val::UInt) VP_CHECK(got.AsUnsigned() == want.u, "%s is %llu, expected %llu", what.c_str(), (unsigned long long)got.AsUnsigned(), (unsigned long long)want.u);
	else {
		ld g = got.AsLongDouble();
		VP_CHECK((g == f && std::signbit(g) == std::signbit(f)) || (g != g && f != f), "%s is %.20Lg, expected %.20Lg", what.c_str(), g, f);
	}
}

static Variant binary(unsigned op, const Variant &a, const Variant &b) {
	switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; default: return a % b; }
}
static void compound(unsigned op, Variant &a, const Variant &b) {
	switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; default: a %= b; }
}

static void arithmetic(vp::Ctx &c) {
	GenOpt o; o.nonfinite = true; o.maxdepth = 1; o.big = false; o.longstr = false;
	Val a = c.chance(1, 8) ? gen_val(c, o) : gen_num(c), b;
	bool self = c.chance(1, 10);
	if (self) b = a;
	else b = c.chance(1, 8) ? gen_val(c, o) : gen_num(c);
	if (c.chance(1, 6)) b = c.coin() ? Val::integer(c.coin() ? 0 : -1) : Val::uinteger(0);
	if (self) b = a;
	unsigned op = c.pick(5);
	string what = val_str(a) + " " + opname[op] + " " + val_str(b) + (self ? " (same variant)" : "");
	Val r; ld f = 0;
	Want w = arith(op, a, b, r, f);
	if (w == OPEN && op < 3) { c.exclude("signed overflow"); return; }
	c.note("%s", what.c_str());
	Variant x = to_variant(a), y = to_variant(b), doc;
	doc["x"] = x; doc["y"] = y;
	Variant alias = doc["x"];
	bool viadoc = c.coin();
	VariantRef hx = viadoc ? doc["x"] : VariantRef(x), hy = viadoc ? doc["y"] : VariantRef(y);
	if (self) hy.ReassignRef(hx);
	unsigned way = c.pick(3);
	Variant got;
	string msg;
	bool threw;
	if (way == 0) {
		threw = throws([&] { got = binary(op, hx, hy); }, &msg);
		VP_CHECK(val_same(from_variant(hx), a) && val_same(from_variant(hy), b), "%s changed an operand", what.c_str());
	} else {
		if (way == 1) threw = throws([&] { compound(op, hx, hy); }, &msg);
		else { Variant &p = viadoc ? doc.AsMap()["x"] : x; Variant &q = self ? p : viadoc ? doc.AsMap()["y"] : y; threw = throws([&] { compound(op, p, q); }, &msg); }
		if (threw) VP_CHECK(val_same(from_variant(hx), a), "%s failed and changed its left operand to %s", what.c_str(), val_str(from_variant(hx)).c_str());
		if (!self) VP_CHECK(val_same(from_variant(hy), b), "%s changed its right operand", what.c_str());
		got = hx;
		if (viadoc && a.isnum()) VP_CHECK(val_same(from_variant(alias), a), "%s changed another variant with the same number", what.c_str());
	}
	if (w == ERROR) VP_CHECK(threw, "%s did not fail", what.c_str());
	if (w == VALUE) { VP_CHECK(!threw, "%s failed: %s", what.c_str(), msg.c_str()); check_result(got, r, f, what); }
	if (a.isnum() || b.isnum()) c.nontrivial(vp::hashmix(vp::hashmix(val_hash(a), val_hash(b)), op * 3 + way));
}

static void unary(vp::Ctx &c) {
	GenOpt o; o.nonfinite = true; o.maxdepth = 1; o.big = false; o.longstr = false;
	Val a = c.chance(1, 6) ? gen_val(c, o) : gen_num(c);
	unsigned op = c.pick(5);
	static const char *nm[] = {"-v", "++v", "--v", "v++", "v--"};
	if (a.t == Val::Int && ((op == 0 && a.i == INT64_MIN) || ((op & 1) && a.i == INT64_MAX) || (op && !(op & 1) && a.i == INT64_MIN))) { c.exclude("signed overflow"); return; }
	Variant x = to_variant(a), doc; doc["x"] = x;
	Variant alias = x;
	VariantRef h = c.coin() ? doc["x"] : VariantRef(x);
	string what = string(nm[op]) + " with v = " + val_str(a);
	c.note("%s", what.c_str());
	Variant got;
	bool threw = throws([&] { switch (op) { case 0: got = -h; break; case 1: got = ++h; break; case 2: got = --h; break; case 3: got = h++; break; default: got = h--; } });
	VP_CHECK(val_same(from_variant(alias), a), "%s changed a copy", what.c_str());
	if (!a.isnum()) {
		VP_CHECK(threw, "%s did not fail", what.c_str());
		VP_CHECK(val_same(from_variant(h), a), "%s failed and changed v", what.c_str());
		return;
	}
	VP_CHECK(!threw, "%s failed", what.c_str());
	Val r = a; ld f = a.d;
	int d = op == 0 ? 0 : op & 1 ? 1 : -1;
	if (op == 0) { r.i = -(uint64_t)a.i; r.u = -a.u; f = -f; } else { r.i += d; r.u += d; f += d; }
	if (op == 0) { check_result(got, r, f, what); VP_CHECK(val_same(from_variant(h), a), "%s changed v", what.c_str()); }
	else {
		check_result(h, r, f, what);
		if (op < 3) check_result(got, r, f, what + " (result)"); else check_result(got, a, a.d, what + " (result)");
	}
	c.nontrivial(vp::hashmix(val_hash(a), op + 100));
}

static void casts(vp::Ctx &c) {              // containers of plain C++ values
	switch (c.pick(3)) {
	case 0: {
		std::map<string, int> m;
		while (m.size() < 6 && c.more(2)) m[c.oneof(core_keys)] = (int)c.pick(1000) - 500;
		Variant v(m);
		c.note("map of %zu ints", m.size());
		VP_CHECK(v.IsMap() && v.Size() == m.size(), "map of ints has the wrong size");
		for (auto &x : m) VP_CHECK(v[x.first].AsInt() == x.second, "map element %s is wrong", x.first.c_str());
		bool eq = v.As<std::map<string, int> >() == m;
		VP_CHECK(eq, "a map of ints does not read back");
		if (m.size()) c.nontrivial(vp::hashmix(7, m.size()) + m.begin()->second);
		break;
	}
	case 1: {
		std::vector<string> l;
		GenOpt o; o.text = TK_ANY; o.nuls = true; o.longstr = false;
		while (l.size() < 6 && c.more(2)) l.push_back(gen_text(c, o));
		Variant v(l);
		c.note("vector of %zu strings", l.size());
		VP_CHECK(v.IsList() && v.Size() == l.size(), "vector of strings has the wrong size");
		bool eq = v.As<std::vector<string> >() == l;
		VP_CHECK(eq, "a vector of strings does not read back");
		if (l.size()) c.nontrivial(vp::hash64(l[0]) + l.size());
		break;
	}
	default: {
		double re = (double)((int)c.pick(100) - 50) / 8, im = (double)((int)c.pick(100) - 50) / 8;
		Variant v;
		unsigned k = c.pick(5);
		std::complex<double> want(re, im);
		if (k == 0) { v["real"] = re; v["imag"] = im; }
		else if (k == 1) { v.Append(re); v.Append(im); }
		else if (k == 2) { v = re; want = std::complex<double>(re, 0); }
		else if (k == 3) { v["imag"] = im; want = std::complex<double>(0, im); }
		else { v.Append(re); want = std::complex<double>(re, 0); }
		std::complex<double> g = v.As<std::complex<double> >();
		c.note("complex %g %g form %u", re, im, k);
		VP_CHECK(g == want, "complex form %u of (%g,%g) reads as (%g,%g)", k, re, im, g.real(), g.imag());
		c.nontrivial(vp::hashmix((int)(re * 8) * 1000 + (int)(im * 8), k));
	}
	}
}

void vp_case(vp::Ctx &c) {
	switch (c.weighted({6, 8, 2, 1})) {
	case 0: conversions(c); break;
	case 1: arithmetic(c); break;
	case 2: unary(c); break;
	default: casts(c); break;
	}
}

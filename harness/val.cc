#include "val.h"
#include <math.h>
#include <string.h>
#include <float.h>
#include <stdlib.h>
#include <limits>
#include <memory>
using namespace libvariant;
using vp::Ctx;

static bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (isnan(a) && isnan(b)); }

bool val_same(const Val &a, const Val &b) {
	if (a.t != b.t) return false;
	switch (a.t) {
	case Val::Null: return true;
	case Val::Bool: return a.b == b.b;
	case Val::Int: return a.i == b.i;
	case Val::UInt: return a.u == b.u;
	case Val::Float: return same_bits(a.d, b.d);
	case Val::Str: case Val::Blob: return a.s == b.s;
	case Val::List:
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!val_same(a.l[i], b.l[i])) return false;
		return true;
	case Val::Map: {
		if (a.m.size() != b.m.size()) return false;
		auto x = a.m.begin(); auto y = b.m.begin();
		for (; x != a.m.end(); ++x, ++y) if (x->first != y->first || !val_same(x->second, y->second)) return false;
		return true;
	}
	}
	return false;
}

// exact comparison of the mathematical values (__int128 and long double carry
// every int64/uint64/double exactly on this platform)
int num_cmp(const Val &a, const Val &b) {
	if ((a.t == Val::Float && isnan(a.d)) || (b.t == Val::Float && isnan(b.d))) return 2;
	auto ld = [](const Val &v) -> long double {
		return v.t == Val::Int ? (long double)v.i : v.t == Val::UInt ? (long double)v.u : (long double)v.d;
	};
	long double x = ld(a), y = ld(b);
	return x < y ? -1 : x > y ? 1 : 0;
}

bool val_equal(const Val &a, const Val &b) {
	if (a.isnum() && b.isnum()) {
		int c = num_cmp(a, b);
		return c == 0 || (c == 2 && a.t == b.t && isnan(a.d) && isnan(b.d));
	}
	if (a.t != b.t) return false;
	if (a.t == Val::List) {
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!val_equal(a.l[i], b.l[i])) return false;
		return true;
	}
	if (a.t == Val::Map) {
		if (a.m.size() != b.m.size()) return false;
		auto x = a.m.begin(); auto y = b.m.begin();
		for (; x != a.m.end(); ++x, ++y) if (x->first != y->first || !val_equal(x->second, y->second)) return false;
		return true;
	}
	return val_same(a, b);
}

bool val_equal_roundtrip(const Val &a, const Val &b, bool whole) {
	if (a.isnum() && b.isnum()) {
		if (a.t == b.t) {
			if (a.t == Val::Float && a.d == 0 && b.d == 0) return true;
			return val_same(a, b);
		}
		// another number type is fine only when the value is unchanged
		if (num_cmp(a, b) != 0) return false;
		if (a.t == Val::UInt && b.t == Val::Int) return true;
		if (a.t == Val::Int && b.t == Val::UInt) return a.i >= 0;
		if (a.t == Val::Float) return whole;
		return false;
	}
	if (a.t != b.t) return false;
	if (a.t == Val::List) {
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!val_equal_roundtrip(a.l[i], b.l[i], whole)) return false;
		return true;
	}
	if (a.t == Val::Map) {
		if (a.m.size() != b.m.size()) return false;
		auto x = a.m.begin(); auto y = b.m.begin();
		for (; x != a.m.end(); ++x, ++y)
			if (x->first != y->first || !val_equal_roundtrip(x->second, y->second, whole)) return false;
		return true;
	}
	return val_same(a, b);
}

std::string val_str(const Val &v) {
	switch (v.t) {
	case Val::Null: return "null";
	case Val::Bool: return v.b ? "true" : "false";
	case Val::Int: return vp::fmt("%lld", (long long)v.i);
	case Val::UInt: return vp::fmt("%lluu", (unsigned long long)v.u);
	case Val::Float: return vp::fmt("%.17gf", v.d);
	case Val::Str: return vp::quote(v.s);
	case Val::Blob: {
		std::string r = "blob(" + vp::quote(v.s);
		if (v.noparts) r += " no buffers";
		for (size_t c : v.cuts) r += vp::fmt(" |%zu", c);
		return r + ")";
	}
	case Val::List: {
		std::string r = "[";
		for (size_t i = 0; i < v.l.size(); ++i) { if (i) r += ", "; r += val_str(v.l[i]); if (r.size() > 6000) return r + "..."; }
		return r + "]";
	}
	case Val::Map: {
		std::string r = "{";
		bool f = true;
		for (auto &x : v.m) { if (!f) r += ", "; f = false; r += vp::quote(x.first) + ": " + val_str(x.second); if (r.size() > 6000) return r + "..."; }
		return r + "}";
	}
	}
	return "?";
}
uint64_t val_hash(const Val &v) {
	uint64_t h = v.t * 7919 + 13;
	switch (v.t) {
	case Val::Null: break;
	case Val::Bool: h = vp::hashmix(h, v.b); break;
	case Val::Int: h = vp::hashmix(h, v.i); break;
	case Val::UInt: h = vp::hashmix(h, v.u); break;
	case Val::Float: { uint64_t x; memcpy(&x, &v.d, 8); h = vp::hashmix(h, x); break; }
	case Val::Blob: for (size_t c : v.cuts) h = vp::hashmix(h, c);   // fall through
	case Val::Str: h = vp::hashmix(h, vp::hash64(v.s)); break;
	case Val::List: for (auto &x : v.l) h = vp::hashmix(h, val_hash(x)); break;
	case Val::Map: for (auto &x : v.m) h = vp::hashmix(vp::hashmix(h, vp::hash64(x.first)), val_hash(x.second)); break;
	}
	return h;
}
size_t val_nodes(const Val &v) {
	size_t n = 1;
	for (auto &x : v.l) n += val_nodes(x);
	for (auto &x : v.m) n += val_nodes(x.second);
	return n;
}
size_t val_depth(const Val &v) {
	size_t n = 0;
	for (auto &x : v.l) n = std::max(n, val_depth(x));
	for (auto &x : v.m) n = std::max(n, val_depth(x.second));
	return n + 1;
}
std::string val_diff(const Val &a, const Val &b) {
	if (a.t == Val::List && b.t == Val::List) {
		for (size_t i = 0; i < a.l.size() && i < b.l.size(); ++i)
			if (!val_same(a.l[i], b.l[i])) return vp::fmt("[%zu]", i) + val_diff(a.l[i], b.l[i]);
	}
	if (a.t == Val::Map && b.t == Val::Map) {
		for (auto &x : a.m) {
			auto y = b.m.find(x.first);
			if (y == b.m.end()) return "/" + vp::quote(x.first) + " missing on the right";
			if (!val_same(x.second, y->second)) return "/" + vp::quote(x.first) + val_diff(x.second, y->second);
		}
		for (auto &y : b.m) if (!a.m.count(y.first)) return "/" + vp::quote(y.first) + " missing on the left";
	}
	return ": " + val_str(a) + " vs " + val_str(b);
}

// ------------------------------------------------------------- conversions
BlobPtr make_blob(const std::string &bytes, const std::vector<size_t> &cuts, bool noparts) {
	std::vector<struct iovec> iov;
	size_t off = 0;
	auto piece = [&](size_t n) {
		void *p = malloc(n ? n : 1);
		if (n) memcpy(p, bytes.data() + off, n);
		struct iovec v = { p, n };
		iov.push_back(v);
		off += n;
	};
	if (noparts && bytes.empty()) {
		struct iovec dummy = { 0, 0 };
		return libvariant::Blob::CreateFree(&dummy, 0);
	}
	for (size_t c : cuts) piece(std::min(c, bytes.size() - off));
	piece(bytes.size() - off);
	return libvariant::Blob::CreateFree(&iov[0], iov.size());
}
std::string blob_bytes(ConstBlobPtr b) {
	std::string s;
	if (!b) return s;
	for (unsigned i = 0; i < b->GetNumBuffers(); ++i)
		if (b->GetLength(i)) s.append((const char *)b->GetPtr(i), b->GetLength(i));
	return s;
}
Variant to_variant(const Val &v) {
	switch (v.t) {
	case Val::Null: return Variant();
	case Val::Bool: return Variant(v.b);
	case Val::Int: return Variant((long long)v.i);
	case Val::UInt: return Variant((unsigned long long)v.u);
	case Val::Float: return Variant(v.d);
	case Val::Str: return Variant(v.s);
	case Val::Blob: return Variant(make_blob(v.s, v.cuts, v.noparts));
	case Val::List: {
		Variant r = VariantDefines::ListType;
		for (auto &x : v.l) r.Append(to_variant(x));
		return r;
	}
	case Val::Map: {
		Variant r = VariantDefines::MapType;
		for (auto &x : v.m) r.Set(x.first, to_variant(x.second));
		return r;
	}
	}
	return Variant();
}
Val from_variant(const Variant &v) {
	switch (v.GetType()) {
	case VariantDefines::NullType: return Val::null();
	case VariantDefines::BoolType: return Val::boolean(v.AsBool());
	case VariantDefines::IntegerType: return Val::integer(v.AsInt());
	case VariantDefines::UnsignedType: return Val::uinteger(v.AsUnsigned());
	case VariantDefines::FloatType: return Val::real((double)v.AsLongDouble());
	case VariantDefines::StringType: return Val::str(v.AsString());
	case VariantDefines::BlobType: return Val::blob(blob_bytes(v.AsBlob()));
	case VariantDefines::ListType: {
		Val r = Val::list();
		for (Variant::ConstListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) r.l.push_back(from_variant(*i));
		return r;
	}
	case VariantDefines::MapType: {
		Val r = Val::map();
		for (Variant::ConstMapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) r.m[i->first] = from_variant(i->second);
		return r;
	}
	default: break;
	}
	vp::fail(vp::fmt("a variant has the unknown type %d", (int)v.GetType()));
}

// ------------------------------------------------------------- generators
void utf8_put(std::string &s, uint32_t cp) {
	if (cp < 0x80) s += (char)cp;
	else if (cp < 0x800) { s += (char)(0xc0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
	else if (cp < 0x10000) { s += (char)(0xe0 | cp >> 12); s += (char)(0x80 | ((cp >> 6) & 63)); s += (char)(0x80 | (cp & 63)); }
	else { s += (char)(0xf0 | cp >> 18); s += (char)(0x80 | ((cp >> 12) & 63)); s += (char)(0x80 | ((cp >> 6) & 63)); s += (char)(0x80 | (cp & 63)); }
}
static int utf8_next(const std::string &s, size_t &i, uint32_t &cp) {
	unsigned char c = s[i];
	int n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
	if (!n || i + n > s.size()) return 0;
	cp = n == 1 ? c : c & (0xff >> (n + 1));
	for (int k = 1; k < n; ++k) {
		unsigned char d = s[i + k];
		if ((d & 0xc0) != 0x80) return 0;
		cp = cp << 6 | (d & 63);
	}
	static const uint32_t minv[] = {0, 0, 0x80, 0x800, 0x10000};
	if (cp < minv[n] || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return 0;
	i += n;
	return n;
}
bool utf8_valid(const std::string &s) {
	size_t i = 0; uint32_t cp;
	while (i < s.size()) if (!utf8_next(s, i, cp)) return false;
	return true;
}
bool xml_text_ok(const std::string &s) {
	size_t i = 0; uint32_t cp;
	while (i < s.size()) {
		if (!utf8_next(s, i, cp)) return false;
		if (!(cp == 9 || cp == 10 || cp == 13 || (cp >= 0x20 && cp < 0xfffe) || cp >= 0x10000)) return false;
	}
	return true;
}

static const std::vector<std::string> &words() {
	static const std::vector<std::string> w = {
		"a", "b", "key", "x1", "value", "foo bar", "A", "zz", "0a", "k/e", "pay.load"
	};
	return w;
}
static const std::vector<std::string> &scalarlike() {
	static const std::vector<std::string> w = {
		"0", "1", "-1", "007", "+5", "12345678901234567890", "0x1F", "0o17", "1.5", "1e5", "-0.0", ".5", "5.", ".inf",
		"-.inf", ".nan", ".NaN", "nan", "inf", "null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE",
		"yes", "no", "on", "off", "y", "n", "-", "--", "---", "...", "?", ":", "a: b", "a : b", "- a", "[1]", "{a: 1}", "#c", "a #b", "&a",
		"*a", "!t", "!!str x", "|", ">", "%d", "@x", "`y", "'q'", "\"q\"", "a'b", "a\"b", ",", "a,b", "=", "<<", "0b1", "1_000",
		"2001-01-01", "<a>", "&amp;", "]]>", "<!--", "\\", "\\n", "/", "~0", "~1", "\\u0041", "+", "-", ".", "..", "e1", "1e", "0x", "0o",
		" 1", "1 ", " true", "null ", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615",
		"+.inf", "+12", "-0", "00", "0.", "1.e3", "1E+5"
	};
	return w;
}

static uint32_t gen_cp(Ctx &c, const GenOpt &o) {
	uint32_t cp = 0;
	switch (c.weighted({20, 8, 4, 4, 3, 3, 2})) {
	case 0: cp = 'a' + c.pick(26); break;
	case 1: cp = 0x20 + c.pick(0x5f); break;
	case 2: { static const char sp[] = " \n\t\r\"\\/'<>&:#-[]{},|?*!%@`=~.+"; cp = sp[c.pick(sizeof(sp) - 1)]; break; }
	case 3: cp = 0x80 + c.pick(0x780); break;
	case 4: cp = 0x800 + c.pick(0xd800 - 0x800); break;
	case 5: switch (c.pick(4)) {
			case 0: cp = 0x10000 + c.pick(0x100000); break;
			case 1: cp = 0x1f600 + c.pick(64); break;
			case 2: { static const uint32_t sp[] = {0x85, 0xa0, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x7f, 0x80, 0x9f, 0xfffe};
				cp = sp[c.pick(sizeof(sp) / sizeof(*sp))]; break; }
			default: cp = 0xe000 + c.pick(0x2000); break;
		} break;
	default: cp = 1 + c.pick(0x1f); break;
	}
	if (o.text == TK_ASCII && cp >= 0x7f) cp = 'q';
	if (o.text == TK_XML) {
		if (!(cp == 9 || cp == 10 || cp == 13 || (cp >= 0x20 && cp < 0xd800) || (cp >= 0xe000 && cp < 0xfffe) || cp >= 0x10000)) cp = 'w';
	}
	return cp;
}

std::string gen_text(Ctx &c, const GenOpt &o) {
	std::string s;
	switch (c.weighted({8, 1, 12, 4, 2, 1})) {
	case 0: s = c.oneof(words()); break;
	case 1: break;
	case 2: {
		while (c.more(6)) utf8_put(s, gen_cp(c, o));
		break;
	}
	case 3: if (o.scalarlike) { s = c.oneof(scalarlike()); if (c.chance(1, 6)) s += c.coin() ? " " : "\n"; } else s = c.oneof(words()); break;
	case 4: { // white space and repetition
		unsigned n = 1 + c.pick(4);
		for (unsigned i = 0; i < n; ++i) s += " \n\t\ra"[c.pick(5)];
		break;
	}
	default: if (o.longstr) { // long, to cross internal buffers
		static const unsigned sizes[] = {60, 100, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 9000};
		unsigned n = sizes[c.pick(sizeof(sizes) / sizeof(*sizes))];
		unsigned k = c.pick(4);
		std::string unit;
		if (k == 0) unit = "x"; else if (k == 1) unit = "lorem ipsum "; else { unsigned m = 1 + c.pick(5); for (unsigned i = 0; i < m; ++i) utf8_put(unit, gen_cp(c, o)); }
		while (s.size() + unit.size() <= n) s += unit;
	} break;
	}
	if (o.nuls && c.chance(1, 12)) {
		size_t at = c.pick(s.size() + 1);
		while (at < s.size() && ((unsigned char)s[at] & 0xc0) == 0x80) --at;   // keep characters whole
		s.insert(at, 1, '\0');
	}
	if (o.text == TK_XML && !xml_text_ok(s)) s = "x";
	return s;
}
std::string gen_key(Ctx &c, const GenOpt &o) {
	if (o.simple_keys || !c.chance(1, 3)) {
		std::string s(1, (char)('a' + c.pick(6)));
		if (c.chance(1, 8)) s += c.oneof(words());
		return s;
	}
	GenOpt p = o;
	p.longstr = o.longstr && c.chance(1, 10);
	std::string s = gen_text(c, p);
	if (s.size() > 900 && !c.chance(1, 4)) s.resize(7);
	if (!utf8_valid(s)) s = "k";
	if (s.empty() && !o.empty_keys) s = "k";
	return s;
}
std::string gen_bytes(Ctx &c, unsigned avg) {
	std::string s;
	switch (c.weighted({6, 1, 1})) {
	case 0: while (c.more(avg)) s += (char)c.pick(256); break;
	case 1: break;
	default: {
		static const unsigned sizes[] = {3, 47, 48, 49, 53, 54, 55, 56, 71, 72, 73, 200, 255, 256, 1000, 4096, 6143, 6144, 6145, 8192};
		unsigned n = sizes[c.pick(sizeof(sizes) / sizeof(*sizes))];
		uint64_t x = c.bits64();
		for (unsigned i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char)(x >> 56); }
	} break;
	}
	return s;
}
Val gen_blob(Ctx &c, const GenOpt &o) {
	Val v = Val::blob(gen_bytes(c, 6));
	if (o.blobparts && c.coin()) {
		size_t left = v.s.size();
		if (v.s.empty() && c.chance(1, 3)) { v.noparts = true; return v; }
		while (c.more(1)) { size_t n = c.pick(left + 1); v.cuts.push_back(n); left -= n; }
	}
	return v;
}
int64_t gen_int(Ctx &c) {
	switch (c.weighted({10, 5, 5, 3})) {
	case 0: return c.range(0, 20) - (c.chance(1, 3) ? 10 : 0);
	case 1: { int64_t x = (int64_t)(c.bits64() >> c.pick(64)); return c.coin() ? -x : x; }
	case 2: {
		static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, UINT32_MAX, (int64_t)UINT32_MAX + 1,
			127, 128, 255, 256, 32767, 32768, 65535, 65536, 1ll << 53, (1ll << 53) + 1, -(1ll << 53) - 1, 1000000000000000000ll, 999999999999999999ll, (int64_t)INT32_MAX + 1, 9999999999ll, 10000000000ll};
		return e[c.pick(sizeof(e) / sizeof(*e))];
	}
	default: { int64_t p = 1; unsigned n = c.pick(19); while (n--) p *= 10; return c.coin() ? -p : p; }
	}
}
uint64_t gen_uint(Ctx &c) {
	switch (c.weighted({6, 4, 5})) {
	case 0: return c.pick(20);
	case 1: return c.bits64() >> c.pick(64);
	default: {
		static const uint64_t e[] = {0, 1, UINT64_MAX, UINT64_MAX - 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1, (uint64_t)INT64_MAX + 2, UINT32_MAX, (uint64_t)UINT32_MAX + 1, 1ull << 63, 10000000000000000000ull, 9999999999999999999ull};
		return e[c.pick(sizeof(e) / sizeof(*e))];
	}
	}
}
double gen_double(Ctx &c, bool nonfinite) {
	switch (c.weighted({5, 4, 4, 3, 3, nonfinite ? 2u : 0u})) {
	case 0: return (double)c.range(0, 100) / 4 - (c.coin() ? 5 : 0);
	case 1: { for (int k = 0; k < 4; ++k) { uint64_t x = c.bits64(); double d; memcpy(&d, &x, 8); if (isfinite(d)) return d; } return 0.1; }
	case 2: {
		static const double e[] = {0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1e15, 1e16, 1e17, 123456789012345680.0, 1e21, 1e22, 1e23, 1e-5, 1e-4, 1e-7, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, -1.7976931348623157e308,
			9007199254740992.0, 9007199254740993.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 4294967296.0, 0.30000000000000004, 3.141592653589793, 1e100, 1e-100, 1e300, 6.02214076e23, 2.5, 100.0, 1e5};
		return e[c.pick(sizeof(e) / sizeof(*e))];
	}
	case 3: return (double)gen_int(c);
	case 4: { double m = (double)(c.pick(2000000)) / 1000.0; int e = (int)c.pick(40) - 20; double r = ldexp(m, 0) * pow(10.0, e); return c.coin() ? -r : r; }
	default: switch (c.pick(3)) { case 0: return INFINITY; case 1: return -INFINITY; default: return NAN; }
	}
}
Val gen_scalar(Ctx &c, const GenOpt &o) {
	switch (c.weighted({4, 3, 6, o.uints ? 2u : 0u, o.floats ? 4u : 0u, 10, o.blobs ? 2u : 0u})) {
	case 0: return Val::null();
	case 1: return Val::boolean(c.coin());
	case 2: return Val::integer(gen_int(c));
	case 3: return Val::uinteger(gen_uint(c));
	case 4: return Val::real(gen_double(c, o.nonfinite));
	case 5: return Val::str(gen_text(c, o));
	default: return gen_blob(c, o);
	}
}
Val gen_val(Ctx &c, const GenOpt &o, unsigned depth) {
	unsigned k = depth >= o.maxdepth ? 0 : c.weighted({6, 3, 3});
	if (k == 0) return gen_scalar(c, o);
	if (k == 1) {
		Val v = Val::list();
		if (o.big && c.chance(1, 60)) {
			unsigned n = 20 + c.pick(c.chance(1, 8) ? 1200 : 300);
			Val e = gen_scalar(c, o);
			if (e.s.size() > 64) e = Val::integer(7);
			unsigned kind = depth + 1 < o.maxdepth ? c.pick(4) : c.pick(2);
			for (unsigned i = 0; i < n; ++i) switch (kind) {
				case 0: v.l.push_back(e); break;
				case 1: v.l.push_back(Val::integer(i)); break;
				case 2: v.l.push_back(Val::list()); v.l.back().l.push_back(Val::integer(i)); break;
				default: v.l.push_back(Val::map()); v.l.back().m["a"] = Val::integer(i);
			}
		}
		while (v.l.size() < 40 && c.more(o.breadth)) v.l.push_back(gen_val(c, o, depth + 1));
		return v;
	}
	Val v = Val::map();
	if (o.big && c.chance(1, 60)) {
		unsigned n = 20 + c.pick(c.chance(1, 8) ? 800 : 200);
		bool lists = depth + 1 < o.maxdepth && c.coin();
		for (unsigned i = 0; i < n; ++i) { Val &e = v.m[vp::fmt("k%u", i)]; e = Val::integer(i); if (lists) { Val l = Val::list(); l.l.push_back(e); e = l; } }
	}
	unsigned guard = 0;
	while (guard++ < 40 && c.more(o.breadth)) { std::string key = gen_key(c, o); v.m[key] = gen_val(c, o, depth + 1); }
	return v;
}
void flip_blob(libvariant::Variant v) {
	libvariant::BlobPtr b = v.AsBlob();
	for (unsigned i = 0; i < b->GetNumBuffers(); ++i) if (b->GetLength(i)) { *(unsigned char *)b->GetPtr(i) ^= 0x55; return; }
}
Val gen_large(Ctx &c, bool blob) {
	static const unsigned sizes[] = {10000, 12288, 16383, 16384, 24576, 32767, 32768, 49149, 49152, 49155, 65535, 65536, 65537, 98304, 131071, 131072, 200000};
	unsigned n = sizes[c.pick(17)] + c.pick(4);
	uint64_t x = c.pick(1000) + 1;
	std::string s;
	while (s.size() < n) {
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		unsigned k = x >> 40;
		if (blob) s += (char)k;
		else if (k % 11 == 0) s += ' ';
		else s += (char)('a' + k % 26);
	}
	if (!blob) { s[0] = 'x'; s[s.size() - 1] = 'z'; return Val::str(s); }
	Val v = Val::str(s);
	v.t = Val::Blob;
	return v;
}
Val gen_container(Ctx &c, const GenOpt &o) {
	Val v = c.coin() ? Val::map() : Val::list();
	if (c.chance(1, 25)) {   // deep chain
		unsigned n = 5 + c.pick(45);
		Val inner = gen_scalar(c, o);
		for (unsigned i = 0; i < n; ++i) {
			Val w = c.coin() ? Val::map() : Val::list();
			if (w.t == Val::Map) w.m[gen_key(c, o)] = inner; else w.l.push_back(inner);
			inner = w;
		}
		return inner;
	}
	unsigned guard = 0;
	if (v.t == Val::List) while (guard++ < 40 && c.more(o.breadth)) v.l.push_back(gen_val(c, o, 1));
	else while (guard++ < 40 && c.more(o.breadth)) { std::string k = gen_key(c, o); v.m[k] = gen_val(c, o, 1); }
	return v;
}
Val gen_map(Ctx &c, const GenOpt &o) {
	Val v = Val::map();
	unsigned guard = 0;
	while (guard++ < 40 && c.more(o.breadth)) { std::string k = gen_key(c, o); v.m[k] = gen_val(c, o, 1); }
	return v;
}

void mutate_val(Ctx &c, Val &v, const GenOpt &o) {
	// descend or edit here
	if (v.t == Val::List && !v.l.empty() && c.pick(3)) { mutate_val(c, v.l[c.pick(v.l.size())], o); return; }
	if (v.t == Val::Map && !v.m.empty() && c.pick(3)) {
		auto i = v.m.begin(); std::advance(i, c.pick(v.m.size()));
		mutate_val(c, i->second, o); return;
	}
	switch (v.t) {
	case Val::List:
		switch (c.pick(4)) {
		case 0: v.l.insert(v.l.begin() + c.pick(v.l.size() + 1), gen_val(c, o, 3)); return;
		case 1: if (!v.l.empty()) v.l.erase(v.l.begin() + c.pick(v.l.size())); return;
		case 2: if (v.l.size() > 1) { std::swap(v.l[c.pick(v.l.size())], v.l[c.pick(v.l.size())]); return; } break;
		default: break;
		}
		break;
	case Val::Map:
		switch (c.pick(3)) {
		case 0: { std::string k = gen_key(c, o); v.m[k] = gen_val(c, o, 3); return; }
		case 1: if (!v.m.empty()) { auto i = v.m.begin(); std::advance(i, c.pick(v.m.size())); v.m.erase(i); } return;
		default: break;
		}
		break;
	case Val::Int: if (c.coin()) { v.i = v.i == INT64_MAX ? 0 : v.i + 1; return; } break;
	case Val::Str: if (c.coin()) { v.s += 'z'; return; } break;
	case Val::Blob: if (c.coin()) { v.s += 'z'; v.cuts.clear(); v.noparts = false; return; } break;
	default: break;
	}
	v = gen_val(c, o, 3);
}

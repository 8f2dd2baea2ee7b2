#include "refguess.h"
#include <stdlib.h>
#include <math.h>
#include <string.h>
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static Val clamp_int(bool neg, const std::string &d, unsigned base) {
	unsigned __int128 v = 0;
	const unsigned __int128 big = (unsigned __int128)1 << 100;
	for (char ch : d) {
		unsigned x = ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
		v = v * base + x;
		if (v > big) v = big;
	}
	if (neg) return Val::integer(v >= ((unsigned __int128)1 << 63) ? INT64_MIN : -(int64_t)v);
	if (v > UINT64_MAX) return Val::uinteger(UINT64_MAX);
	if (v > INT64_MAX) return Val::uinteger((uint64_t)v);
	return Val::integer((int64_t)v);
}
// octal and hexadecimal numbers may be signed or unsigned
static Val any_type(const Val &v) { return v.t == Val::Int ? Val::uinteger((uint64_t)v.i) : v; }
Val ref_guess(const std::string &text) {
	size_t b = 0, e = text.size();
	while (b < e && sp(text[b])) ++b;
	while (e > b && sp(text[e - 1])) --e;
	std::string s = text.substr(b, e - b);
	if (s == "null" || s == "Null" || s == "NULL" || s == "~") return Val::null();
	if (s == "true" || s == "True" || s == "TRUE") return Val::boolean(true);
	if (s == "false" || s == "False" || s == "FALSE") return Val::boolean(false);
	if (s == ".nan" || s == ".NaN" || s == ".NAN" || s == ".Nan") return Val::real(NAN);
	if (s.size() > 2 && s[0] == '0' && s[1] == 'o') {
		size_t k = 2;
		while (k < s.size() && s[k] >= '0' && s[k] <= '7') ++k;
		if (k == s.size()) return any_type(clamp_int(false, s.substr(2), 8));
	}
	if (s.size() > 2 && s[0] == '0' && s[1] == 'x') {
		size_t k = 2;
		while (k < s.size() && isxdigit((unsigned char)s[k])) ++k;
		if (k == s.size()) return any_type(clamp_int(false, s.substr(2), 16));
	}
	size_t p = 0;
	bool neg = false;
	if (p < s.size() && (s[p] == '-' || s[p] == '+')) { neg = s[p] == '-'; ++p; }
	std::string r = s.substr(p);
	if (r == ".inf" || r == ".Inf" || r == ".INF") return Val::real(neg ? -INFINITY : INFINITY);
	size_t k = 0;
	while (k < r.size() && dig(r[k])) ++k;
	size_t nint = k, nfrac = 0;
	bool point = false;
	if (nint && k == r.size()) return clamp_int(neg, r, 10);
	if (k < r.size() && r[k] == '.') { point = true; ++k; while (k < r.size() && dig(r[k])) { ++k; ++nfrac; } }
	bool ok = nint || (point && nfrac);
	if (ok && k < r.size() && (r[k] == 'e' || r[k] == 'E')) {
		++k;
		if (k < r.size() && (r[k] == '-' || r[k] == '+')) ++k;
		size_t q = k;
		while (k < r.size() && dig(r[k])) ++k;
		if (k == q) ok = false;
	}
	if (ok && k == r.size() && k > 0) { double d = strtod(r.c_str(), 0); return Val::real(neg ? -d : d); }
	return Val::str(text);
}
// is b what a expects?
bool guess_same(const Val &a, const Val &b) {
	if (a.t == Val::Float || b.t == Val::Float) return a.t == b.t && (val_same(a, b) || (a.d == 0 && b.d == 0));
	if (a.isnum() && b.isnum()) return num_cmp(a, b) == 0 && (a.t == b.t || a.t != Val::Int);
	return val_same(a, b);
}
std::string gen_scalar_text(vp::Ctx &c) {
	std::string s;
	switch (c.weighted({5, 5, 4, 4, 3})) {
	case 0: {
		static const char *w[] = {"null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", ".Inf", ".INF", "-.inf", "+.Inf", "-.INF",
			".nan", ".NaN", ".NAN", "0", "-0", "+0", "1", "nUll", "tRUE", "nulls", "~~", "truefalse", "inf", "nan", "yes", "no", "on", "off", "x", ".", "-", "+", "--1", "1-", "e5", "0x", "0o", "0o8", "0xg", "0X1", "0O7", "-0x1", "+0o7",
			"1_0", "1e", "1e+", ".e1", "1.e", "5.", ".5", "-.5", "+5.", "1.2.3", ".infx", "-.nan", "+.nan", "..inf"};
		s = w[c.pick(sizeof(w) / sizeof(*w))];
		break;
	}
	case 1: s = vp::fmt("%s%lld", c.chance(1, 6) ? "+" : "", (long long)gen_int(c)); if (s[0] == '+' && s[1] == '-') s.erase(0, 1); break;
	case 2: s = vp::fmt("%llu", (unsigned long long)gen_uint(c)); if (c.chance(1, 5)) s += (char)('0' + c.pick(10)); if (c.chance(1, 5)) s = "-" + s; if (c.chance(1, 6)) s = "000" + s; break;
	case 3:
		switch (c.pick(4)) {
		case 0: s = vp::fmt("%.*g", (int)(1 + c.pick(20)), gen_double(c, false)); break;
		case 1: s = vp::fmt("%.*e", (int)c.pick(20), gen_double(c, false)); break;
		case 2: s = vp::fmt("0x%llx", (unsigned long long)gen_uint(c)); if (c.chance(1, 5)) s += "f"; if (c.chance(1, 4)) for (size_t i = 2; i < s.size(); ++i) s[i] = toupper(s[i]); break;
		default: s = vp::fmt("0o%llo", (unsigned long long)gen_uint(c)); if (c.chance(1, 5)) s += "7"; break;
		}
		break;
	default: {
		static const char al[] = "0123456789+-.eExonulTRUEfaNi~ ";
		do s += al[c.pick(sizeof(al) - 1)]; while (c.more(5));
	}
	}
	if (c.chance(1, 5) && !s.empty()) {        // near miss
		static const char al[] = "0178+-.eEx~nuf ";
		size_t at = c.pick(s.size() + 1);
		if (c.coin()) s.insert(at, 1, al[c.pick(sizeof(al) - 1)]);
		else if (at < s.size()) s.erase(at, 1);
	}
	return s;
}

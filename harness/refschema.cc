#include "refschema.h"
#include <regex>
#include <math.h>
using std::string;
using vp::Ctx;

static Tri tri(bool b) { return b ? YES : NO; }
static Tri both(Tri a, Tri b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : OPEN; }
static Tri either(Tri a, Tri b) { return a == YES || b == YES ? YES : a == NO && b == NO ? NO : OPEN; }
static Tri negate(Tri a) { return a == YES ? NO : a == NO ? YES : OPEN; }
static long double ld(const Val &v) { return v.t == Val::Int ? (long double)v.i : v.t == Val::UInt ? (long double)v.u : (long double)v.d; }
static size_t chars(const string &s) { size_t n = 0; for (unsigned char ch : s) if ((ch & 0xc0) != 0x80) ++n; return n; }

static bool ascii(const string &s) { for (unsigned char ch : s) if (ch >= 0x80) return false; return true; }
// what a character is to a pattern depends on the encoding it is matched in: open outside ASCII
static Tri matches(const string &pattern, const string &s) {
	if (!ascii(s)) return OPEN;
	if ((s.find('\0') != string::npos || s.find('\n') != string::npos) && pattern.find('.') != string::npos) return OPEN;
	static std::map<string, std::regex> cache;
	if (cache.size() > 5000) cache.clear();
	auto i = cache.find(pattern);
	if (i == cache.end()) i = cache.emplace(pattern, std::regex(pattern)).first;
	return tri(std::regex_search(s, i->second));
}
static Tri multiple(const Val &x, const Val &m) {
	long double a = fabsl(ld(x)), d = ld(m);
	long double r = fmodl(a, d);
	if (r == 0) return YES;
	if (x.t != Val::Float && m.t != Val::Float) return NO;
	// what was written as decimal fractions (of up to three places) is judged as such
	long double a3 = a * 1000, d3 = d * 1000;
	if (a3 < 1e9L && d3 >= 1 && fabsl(a3 - roundl(a3)) < 1e-15L * a3 && fabsl(d3 - roundl(d3)) < 1e-15L * d3) return tri((int64_t)roundl(a3) % (int64_t)roundl(d3) == 0);
	// otherwise decimal fractions are not exact in binary: as close to a multiple as the rounding of the two is left open
	long double near = 1e-13L * std::max(a, d);
	if (r < near || d - r < near) return OPEN;
	return NO;
}
static bool typed(const string &t, const Val &x) {
	if (t == "array") return x.t == Val::List;
	if (t == "boolean") return x.t == Val::Bool;
	if (t == "integer") return x.t == Val::Int || x.t == Val::UInt || (x.t == Val::Float && x.d == floor(x.d));
	if (t == "null") return x.t == Val::Null;
	if (t == "number") return x.isnum();
	if (t == "object") return x.t == Val::Map;
	return x.t == Val::Str;
}
static Tri format(const string &f, const string &s) {
	if (f == "date-time") {
		static const std::regex full("[0-9]{4}-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9])T([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?(Z|[+-]([01][0-9]|2[0-3]):[0-5][0-9])");
		if (std::regex_match(s, full)) return YES;
		for (char ch : s) if (ch == 'a' || ch == 'b') return NO;
		return OPEN;
	}
	if (f == "date" || f == "time") {
		static const std::regex date("[0-9]{4}-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9])"), time("([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]");
		if (std::regex_match(s, f == "date" ? date : time)) return YES;
		for (char ch : s) if (ch == 'a' || ch == 'b' || ch == 'T') return NO;
		return OPEN;
	}
	return OPEN;
}
bool ref_schema_deep;
unsigned ref_schema_limit = 40;
Tri ref_schema(const Val &s, const Val &x, const RefResolver *refs, unsigned depth) {
	if (depth > ref_schema_limit) { ref_schema_deep = true; return OPEN; }
	if (s.t != Val::Map) return OPEN;
	auto has = [&](const char *k) -> const Val * { auto i = s.m.find(k); return i == s.m.end() ? 0 : &i->second; };
	auto sub = [&](const Val &t, const Val &y) { return ref_schema(t, y, refs, depth + 1); };
	Tri r = YES;
	const Val *k;
	if (refs && (k = has("$ref"))) {
		if (k->t != Val::Str) return OPEN;
		const Val *t = (*refs)(k->s);
		return t ? sub(*t, x) : OPEN;
	}
	if ((k = has("type"))) {
		if (k->t == Val::Str) r = both(r, tri(typed(k->s, x)));
		else { bool ok = false; for (auto &t : k->l) ok |= typed(t.s, x); r = both(r, tri(ok)); }
	}
	if ((k = has("enum"))) { bool ok = false; for (auto &e : k->l) ok |= val_equal(e, x); r = both(r, tri(ok)); }
	if (x.isnum()) {
		if ((k = has("multipleOf"))) r = both(r, multiple(x, *k));
		if ((k = has("minimum"))) { int q = num_cmp(x, *k); const Val *e = has("exclusiveMinimum"); r = both(r, tri(e && e->b ? q > 0 : q >= 0)); }
		if ((k = has("maximum"))) { int q = num_cmp(x, *k); const Val *e = has("exclusiveMaximum"); r = both(r, tri(e && e->b ? q < 0 : q <= 0)); }
	}
	if (x.t == Val::Str) {
		if ((k = has("minLength"))) r = both(r, tri(chars(x.s) >= (size_t)ld(*k)));
		if ((k = has("maxLength"))) r = both(r, tri(chars(x.s) <= (size_t)ld(*k)));
		if ((k = has("pattern"))) r = both(r, matches(k->s, x.s));
		if ((k = has("format"))) r = both(r, format(k->s, x.s));
	}
	if (x.t == Val::List) {
		if ((k = has("minItems"))) r = both(r, tri(x.l.size() >= (size_t)ld(*k)));
		if ((k = has("maxItems"))) r = both(r, tri(x.l.size() <= (size_t)ld(*k)));
		if ((k = has("uniqueItems")) && k->b) for (size_t i = 0; i < x.l.size(); ++i) for (size_t j = 0; j < i; ++j) if (val_equal(x.l[i], x.l[j])) r = NO;
		if ((k = has("items"))) {
			if (k->t == Val::Map) { for (auto &y : x.l) r = both(r, sub(*k, y)); }
			else for (size_t i = 0; i < x.l.size(); ++i) {
				if (i < k->l.size()) r = both(r, sub(k->l[i], x.l[i]));
				else if (const Val *a = has("additionalItems")) r = both(r, a->t == Val::Bool ? tri(a->b) : sub(*a, x.l[i]));
			}
		}
	}
	if (x.t == Val::Map) {
		if ((k = has("minProperties"))) r = both(r, tri(x.m.size() >= (size_t)ld(*k)));
		if ((k = has("maxProperties"))) r = both(r, tri(x.m.size() <= (size_t)ld(*k)));
		if ((k = has("required"))) for (auto &q : k->l) if (!x.m.count(q.s)) r = NO;
		const Val *p = has("properties"), *pp = has("patternProperties"), *ap = has("additionalProperties");
		for (auto &y : x.m) {
			bool hit = false;
			if (p && p->m.count(y.first)) { hit = true; r = both(r, sub(p->m.find(y.first)->second, y.second)); }
			bool maybe = false;
			if (pp) for (auto &q : pp->m) {
				Tri t = matches(q.first, y.first);
				if (t == OPEN) { maybe = true; if (sub(q.second, y.second) != YES) r = both(r, OPEN); }
				else if (t == YES) { hit = true; r = both(r, sub(q.second, y.second)); }
			}
			if (!hit && maybe && ap) { r = both(r, OPEN); continue; }
			if (!hit && ap) r = both(r, ap->t == Val::Bool ? tri(ap->b) : sub(*ap, y.second));
		}
		if ((k = has("dependencies"))) for (auto &d : k->m) if (x.m.count(d.first)) {
			if (d.second.t == Val::List) { for (auto &q : d.second.l) if (!x.m.count(q.s)) r = NO; }
			else r = both(r, sub(d.second, x));
		}
	}
	if ((k = has("allOf"))) for (auto &t : k->l) r = both(r, sub(t, x));
	if ((k = has("anyOf"))) { Tri a = NO; for (auto &t : k->l) a = either(a, sub(t, x)); r = both(r, a); }
	if ((k = has("oneOf"))) {
		unsigned yes = 0, open = 0;
		for (auto &t : k->l) { Tri a = sub(t, x); if (a == YES) ++yes; else if (a == OPEN) ++open; }
		r = both(r, yes > 1 ? NO : open ? OPEN : tri(yes == 1));
	}
	if ((k = has("not"))) r = both(r, negate(sub(*k, x)));
	return r;
}

string gen_regex(Ctx &c) {
	string r;
	if (c.chance(1, 3)) r += "^";
	unsigned n = 0;
	do {
		switch (c.pick(6)) {
		case 0: r += "a"; break;
		case 1: r += "b"; break;
		case 2: r += "."; break;
		case 3: r += "[ab]"; break;
		case 4: r += "[^a]"; break;
		default: r += c.coin() ? "(a|b)" : "(ab|c)"; break;
		}
		switch (c.weighted({6, 1, 1, 1, 1})) {
		case 1: r += "*"; break;
		case 2: r += "+"; break;
		case 3: r += "?"; break;
		case 4: r += "{1,2}"; break;
		default: break;
		}
	} while (n++ < 3 && c.more(1));
	if (c.chance(1, 3)) r += "$";
	return r;
}
static const std::vector<string> keys = {"a", "b", "c", "ab", "", "a/b", "id", "type", "properties"};
static string gen_word(Ctx &c) {
	if (c.chance(1, 40)) return c.coin() ? string("a\0b", 3) : string("ab\0", 3);
	if (c.chance(1, 40)) return c.coin() ? "\xff" : "a\xc3";
	if (c.chance(1, 24)) { static const char *w[] = {"a\nb", "b\n", "\na", "ab\nab", "c\na\nb"}; return w[c.pick(5)]; }
	if (c.chance(1, 24)) { static const char *w[] = {"A", "B", "aB", "AB", "C"}; return w[c.pick(5)]; }
	if (c.chance(1, 24)) { static const char *w[] = {"\xc2\x80", "\xc3\xbf", "\xc4\x80z", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xc3\xbf\xc3\xbf\xc3\xbf"}; return w[c.pick(10)]; }
	if (c.chance(1, 6)) {
		static const char *w[] = {"\xc3\xa9", "a\xc3\xa9", "\xe2\x82\xac\xe2\x82\xac", "2014-02-03T04:05:06Z", "2014-02-03T04:05:06.25+02:00", "2014-02-03", "04:05:06", "ab-02-03", "\xf0\x9f\x98\x80", "2014-12-29T23:59:59-11:30"};
		return w[c.pick(10)];
	}
	string s;
	while (s.size() < 5 && c.more(2)) s += "abc"[c.pick(3)];
	return s;
}
static Val gen_number(Ctx &c) {
	switch (c.weighted({8, 3, 3, 2, 1, 1, 1, 1})) {
	case 0: return Val::integer(c.range(0, 8));
	case 1: return Val::integer(-(int64_t)c.pick(8));
	case 2: return Val::real(((int)c.pick(24) - 10) * 0.5);
	case 3: return Val::uinteger(c.pick(8));
	case 4: return Val::real(((int)c.pick(60) - 20) / 10.0);
	case 5: return c.coin() ? Val::integer(INT64_MAX - (int64_t)c.pick(3)) : Val::integer(INT64_MIN + (int64_t)c.pick(3));
	case 6: return Val::uinteger((uint64_t)INT64_MAX + c.pick(3));
	default: {
		static const double big[] = {1e19, -1e19, 1e300, -1e20, 9223372036854775808.0, 9007199254740993.0, 1e15 + 0.5, 1e-9, -1e-300};
		if (c.coin()) return Val::real(big[c.pick(9)]);
		// close to a whole number, but not it
		static const double off[] = {1e-3, 1e-6, 1e-9, 1e-11};
		return Val::real((int)c.pick(9) - 4 + (c.coin() ? 1 : -1) * off[c.pick(4)]);
	}
	}
}
static Val gen_any(Ctx &c, unsigned depth) {
	switch (depth >= 3 ? c.pick(5) : c.pick(9)) {
	case 0: case 1: return gen_number(c);
	case 2: return Val::str(gen_word(c));
	case 3: return Val::boolean(c.coin());
	case 4: return Val::null();
	case 5: case 6: { Val v = Val::list(); while (v.l.size() < 4 && c.more(2)) v.l.push_back(gen_any(c, depth + 1)); return v; }
	default: { Val v = Val::map(); unsigned n = 0; while (n++ < 4 && c.more(2)) v.m[c.chance(1, 6) ? c.oneof(keys) : string(1, "abc"[c.pick(3)])] = gen_any(c, depth + 1); return v; }
	}
}
static const char *types[] = {"integer", "number", "string", "object", "array", "boolean", "null"};
static Val count(Ctx &c, unsigned n) { unsigned k = c.pick(n); if (c.chance(1, 12)) k = c.pick(40); return c.chance(1, 6) ? Val::uinteger(k) : Val::integer(k); }

Val gen_schema(Ctx &c, const SchemaGen &o, unsigned depth) {
	Val s = Val::map();
	if (o.ref && c.chance(1, depth ? 4 : 12)) return o.ref(c);
	bool deep = depth < o.maxdepth;
	auto sub = [&] { return gen_schema(c, o, depth + 1); };
	auto subs = [&] { Val l = Val::list(); do l.l.push_back(sub()); while (l.l.size() < 3 && c.coin()); return l; };
	unsigned focus = c.pick(5), n = 0;
	if (c.chance(1, 3)) {
		if (c.chance(2, 3)) s.m["type"] = Val::str(types[c.pick(7)]);
		else { Val l = Val::list(); unsigned mask = 1 + c.pick(127); for (int i = 0; i < 7; ++i) if (mask >> i & 1) l.l.push_back(Val::str(types[i])); s.m["type"] = l; }
	}
	while (n++ < 4 && c.more(depth ? 1 : 2)) {
		switch (c.chance(1, 6) ? c.pick(5) : focus) {
		case 0:
			switch (c.pick(3)) {
			case 0: s.m["minimum"] = gen_number(c); if (c.coin()) s.m["exclusiveMinimum"] = Val::boolean(c.coin()); break;
			case 1: s.m["maximum"] = gen_number(c); if (c.coin()) s.m["exclusiveMaximum"] = Val::boolean(c.coin()); break;
			default: { Val m = c.chance(1, 3) ? Val::real((1 + c.pick(8)) * 0.25) : c.chance(1, 6) ? Val::real((1 + c.pick(9)) / 10.0) : Val::integer(1 + c.pick(5)); if (c.chance(1, 6)) m = Val::uinteger(1 + c.pick(5)); s.m["multipleOf"] = m; }
			}
			break;
		case 1:
			switch (c.pick(4)) {
			case 0: s.m["minLength"] = count(c, 4); break;
			case 1: s.m["maxLength"] = count(c, 5); break;
			case 2: s.m["pattern"] = Val::str(gen_regex(c)); break;
			default: if (o.formats) { static const char *f[] = {"date-time", "date", "time", "unknown"}; s.m["format"] = Val::str(f[c.pick(4)]); } break;
			}
			break;
		case 2:
			switch (c.pick(5)) {
			case 0: s.m["minItems"] = count(c, 4); break;
			case 1: s.m["maxItems"] = count(c, 4); break;
			case 2: s.m["uniqueItems"] = Val::boolean(!c.chance(1, 5)); break;
			case 3: if (deep) s.m["items"] = sub(); break;
			default: if (deep) { s.m["items"] = subs(); if (c.chance(2, 3)) s.m["additionalItems"] = c.coin() ? Val::boolean(c.coin()) : sub(); }
			}
			break;
		case 3:
			switch (c.pick(7)) {
			case 0: s.m["minProperties"] = count(c, 4); break;
			case 1: s.m["maxProperties"] = count(c, 4); break;
			case 2: { Val l = Val::list(); do l.l.push_back(Val::str(c.oneof(keys))); while (c.coin()); std::vector<Val> u; for (auto &x : l.l) { bool dup = false; for (auto &y : u) dup |= y.s == x.s; if (!dup) u.push_back(x); } l.l = u; s.m["required"] = l; break; }
			case 3: case 4: if (deep) { Val p = Val::map(); do p.m[c.chance(1, 6) ? c.oneof(keys) : string(1, "abc"[c.pick(3)])] = sub(); while (c.coin()); s.m["properties"] = p; if (c.chance(1, 3)) s.m["additionalProperties"] = c.coin() ? Val::boolean(c.coin()) : sub(); } break;
			case 5: if (deep) { Val p = Val::map(); do p.m[gen_regex(c)] = sub(); while (c.coin()); s.m["patternProperties"] = p; if (c.chance(1, 3)) s.m["additionalProperties"] = c.coin() ? Val::boolean(c.coin()) : sub(); } break;
			default: if (deep) { Val d = Val::map(); do { if (c.coin()) { Val l = Val::list(); l.l.push_back(Val::str(string(1, "abc"[c.pick(3)]))); if (c.coin()) l.l.push_back(Val::str("ab")); d.m[string(1, "abc"[c.pick(3)])] = l; } else d.m[string(1, "abc"[c.pick(3)])] = sub(); } while (c.coin()); s.m["dependencies"] = d; }
			}
			break;
		default:
			if (c.chance(1, 4)) { Val l = Val::list(); do l.l.push_back(gen_any(c, 1)); while (l.l.size() < 5 && c.more(3)); s.m["enum"] = l; }
			else if (deep) switch (c.pick(4)) {
			case 0: s.m["allOf"] = subs(); break;
			case 1: s.m["anyOf"] = subs(); break;
			case 2: s.m["oneOf"] = subs(); break;
			default: s.m["not"] = sub(); break;
			}
		}
	}
	if (c.chance(1, 12)) s.m[c.coin() ? "title" : "unknown"] = Val::str("x");
	if (c.chance(1, 16)) s.m["default"] = gen_any(c, 2);
	return s;
}
static Val one(const Val &v) { Val l = Val::list(); l.l.push_back(v); return l; }
Val gen_instance(Ctx &c, const Val &s, unsigned depth) {
	if (s.t != Val::Map || depth > 5 || c.chance(1, 5)) return gen_any(c, depth);
	auto has = [&](const char *k) -> const Val * { auto i = s.m.find(k); return i == s.m.end() ? 0 : &i->second; };
	const Val *k;
	if ((k = has("enum")) && !k->l.empty() && c.coin()) return k->l[c.pick(k->l.size())];
	for (const char *w : {"allOf", "anyOf", "oneOf"}) if ((k = has(w)) && !k->l.empty() && c.coin()) return gen_instance(c, k->l[c.pick(k->l.size())], depth + 1);
	if ((k = has("not")) && c.coin()) return gen_instance(c, *k, depth + 1);
	if ((k = has("dependencies")) && c.chance(1, 3)) {
		for (auto &d : k->m) { Val v = gen_instance(c, d.second, depth + 1); if (v.t != Val::Map) v = Val::map(); v.m[d.first] = gen_any(c, 2); return v; }
	}
	string type;
	if ((k = has("type"))) type = k->t == Val::Str ? k->s : k->l.empty() ? "" : k->l[c.pick(k->l.size())].s;
	bool num = has("minimum") || has("maximum") || has("multipleOf"), str = has("minLength") || has("maxLength") || has("pattern") || has("format");
	bool lst = has("items") || has("minItems") || has("maxItems") || has("uniqueItems");
	bool obj = has("properties") || has("patternProperties") || has("required") || has("minProperties") || has("maxProperties") || has("dependencies") || has("additionalProperties");
	if (type == "integer" || type == "number" || (type.empty() && num)) {
		if (c.coin()) for (const char *w : {"minimum", "maximum"}) if ((k = has(w)) && c.coin()) {
			Val v = *k;
			if (c.coin()) return v;
			if (v.t == Val::Int && v.i < INT64_MAX && v.i > INT64_MIN) v.i += c.coin() ? 1 : -1;
			if (v.t == Val::Float) v.d += c.coin() ? 0.25 : -0.25;
			return v;
		}
		return gen_number(c);
	}
	if (type == "string" || (type.empty() && str)) return Val::str(gen_word(c));
	if (type == "array" || (type.empty() && lst)) {
		Val v = Val::list();
		k = has("items");
		if (c.chance(1, 16)) {
			// long lists, with at most one pair of equal elements
			unsigned n = c.coin() ? 5 + c.pick(30) : 90 + c.pick(60), kind = c.pick(4);
			const Val *is = k && k->t == Val::Map && depth < 2 ? k : 0;
			if (is && c.chance(1, 3)) {                  // all alike but one
				n += c.pick(200);
				Val e = gen_instance(c, *is, depth + 3);
				v.l.assign(n, e);
				Val x = c.coin() ? gen_any(c, depth + 3) : gen_instance(c, *is, depth + 3);
				v.l[c.coin() ? n - 1 : c.pick(n)] = x;
				return v;
			}
			for (unsigned i = 0; i < n; ++i) v.l.push_back(kind == 0 && is && i < 40 ? gen_instance(c, *is, depth + 3) : kind == 1 ? Val::str(vp::fmt("w%u", i)) : kind == 2 ? one(Val::integer(i)) : Val::integer(i));
			if (c.coin()) v.l[c.pick(n)] = Val(v.l[c.pick(n)]);
			return v;
		}
		while (v.l.size() < 5 && c.more(2)) {
			if (!v.l.empty() && c.chance(1, 6)) { Val y = v.l[c.pick(v.l.size())]; v.l.push_back(y); continue; }
			const Val *is = !k ? 0 : k->t == Val::Map ? k : v.l.size() < k->l.size() ? &k->l[v.l.size()] : has("additionalItems");
			v.l.push_back(is ? gen_instance(c, *is, depth + 1) : gen_any(c, depth + 2));
		}
		return v;
	}
	if (type == "object" || (type.empty() && obj)) {
		Val v = Val::map();
		if (c.chance(1, 24)) for (unsigned n = c.coin() ? 5 + c.pick(30) : 90 + c.pick(60), i = 0; i < n; ++i) v.m[vp::fmt(i % 2 ? "a%u" : "z%u", i)] = Val::integer(i);
		if ((k = has("properties"))) for (auto &p : k->m) if (!c.chance(1, 3)) v.m[p.first] = gen_instance(c, p.second, depth + 1);
		if ((k = has("required"))) for (auto &q : k->l) if (!v.m.count(q.s) && c.chance(3, 4)) v.m[q.s] = gen_any(c, 2);
		unsigned n = 0;
		while (n++ < 3 && c.chance(1, 3)) {
			const Val *as = has("additionalProperties");
			if ((k = has("patternProperties")) && !k->m.empty() && c.coin()) as = &k->m.begin()->second;
			string key = c.coin() ? string(1, "abc"[c.pick(3)]) : gen_word(c);
			if (!v.m.count(key)) v.m[key] = as ? gen_instance(c, *as, depth + 1) : gen_any(c, depth + 2);
		}
		return v;
	}
	if (type == "boolean") return Val::boolean(c.coin());
	if (type == "null") return Val::null();
	return gen_any(c, depth);
}

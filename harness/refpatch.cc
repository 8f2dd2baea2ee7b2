#include "refpatch.h"
using std::string;
using vp::Ctx;
bool ptr_parse(const string &p, Tokens &t, bool &doubtful) {
	t.clear();
	doubtful = false;
	if (p.empty()) return true;
	if (p[0] != '/') return false;
	for (size_t i = 0; i < p.size(); ++i) {
		char ch = p[i];
		if (ch == '/') { t.push_back(""); continue; }
		if (ch == '~') {
			if (i + 1 < p.size() && (p[i + 1] == '0' || p[i + 1] == '1')) { t.back() += p[i + 1] == '0' ? '~' : '/'; ++i; continue; }
			doubtful = true;
		}
		t.back() += ch;
	}
	return true;
}
string ptr_form(const Tokens &t) {
	string s;
	for (auto &x : t) {
		s += '/';
		for (char ch : x) if (ch == '~') s += "~0"; else if (ch == '/') s += "~1"; else s += ch;
	}
	return s;
}
// the index a token denotes, or -1
static long index_of(const string &t) {
	if (t.empty() || t.size() > 9 || (t[0] == '0' && t.size() > 1)) return -1;
	long v = 0;
	for (char ch : t) { if (ch < '0' || ch > '9') return -1; v = v * 10 + (ch - '0'); }
	return v;
}
Val *ptr_find(Val &doc, const Tokens &t) {
	Val *v = &doc;
	for (auto &x : t) {
		if (v->t == Val::Map) {
			auto i = v->m.find(x);
			if (i == v->m.end()) return 0;
			v = &i->second;
		} else if (v->t == Val::List) {
			long k = index_of(x);
			if (k < 0 || (size_t)k >= v->l.size()) return 0;
			v = &v->l[k];
		} else return 0;
	}
	return v;
}
static bool parse(const string &p, Tokens &t) { bool d; return ptr_parse(p, t, d); }
bool ref_add(Val &doc, const string &ptr, const Val &x) {
	Tokens t;
	if (!parse(ptr, t)) return false;
	if (t.empty()) { Val y = x; doc = y; return true; }
	string last = t.back();
	t.pop_back();
	Val *v = ptr_find(doc, t);
	if (!v) return false;
	if (v->t == Val::Map) { Val y = x; v->m[last] = y; return true; }
	if (v->t != Val::List) return false;
	long k = last == "-" ? (long)v->l.size() : index_of(last);
	if (k < 0 || (size_t)k > v->l.size()) return false;
	Val y = x;
	v->l.insert(v->l.begin() + k, y);
	return true;
}
bool ref_remove(Val &doc, const string &ptr, Val *removed) {
	Tokens t;
	if (!parse(ptr, t)) return false;
	if (t.empty()) { if (removed) *removed = doc; doc = Val::null(); return true; }
	Val *x = ptr_find(doc, t);
	if (!x) return false;
	if (removed) *removed = *x;
	string last = t.back();
	t.pop_back();
	Val *v = ptr_find(doc, t);
	if (v->t == Val::Map) v->m.erase(last);
	else v->l.erase(v->l.begin() + index_of(last));
	return true;
}
bool ref_replace(Val &doc, const string &ptr, const Val &x) {
	Tokens t;
	if (!parse(ptr, t)) return false;
	Val *v = ptr_find(doc, t);
	if (!v) return false;
	Val y = x;
	*v = y;
	return true;
}
bool ref_move(Val &doc, const string &from, const string &to) {
	Val keep = doc, x;
	if (!ref_remove(doc, from, &x)) return false;
	if (ref_add(doc, to, x)) return true;
	doc = keep;
	return false;
}
bool ref_copy(Val &doc, const string &from, const string &to) {
	Tokens t;
	if (!parse(from, t)) return false;
	Val *v = ptr_find(doc, t);
	if (!v) return false;
	Val y = *v;
	return ref_add(doc, to, y);
}
bool ref_test(Val &doc, const string &ptr, const Val &x) {
	Tokens t;
	if (!parse(ptr, t)) return false;
	Val *v = ptr_find(doc, t);
	return v && val_equal(*v, x);
}
bool ref_patch_op(Val &doc, const Val &op) {
	if (op.t != Val::Map) return false;
	auto str = [&](const char *k, string &s) { auto i = op.m.find(k); if (i == op.m.end() || i->second.t != Val::Str) return false; s = i->second.s; return true; };
	string o, p, from;
	if (!str("op", o) || !str("path", p)) return false;
	if (o == "remove") return ref_remove(doc, p);
	if (o == "move" || o == "copy") {
		if (!str("from", from)) return false;
		return o == "move" ? ref_move(doc, from, p) : ref_copy(doc, from, p);
	}
	auto v = op.m.find("value");
	if (v == op.m.end()) return false;
	if (o == "add") return ref_add(doc, p, v->second);
	if (o == "replace") return ref_replace(doc, p, v->second);
	if (o == "test") return ref_test(doc, p, v->second);
	return false;
}
bool ref_patch(Val &doc, const Val &ops) {
	Val keep = doc;
	if (ops.t == Val::List) {
		for (auto &x : ops.l) if (!ref_patch_op(doc, x)) { doc = keep; return false; }
		return true;
	}
	if (ref_patch_op(doc, ops)) return true;
	doc = keep;
	return false;
}
static const std::vector<string> keys = {"a", "b", "c", "", "~", "/", "a/b", "m~n", "~1", "0", "1", "-", "01", " ", "k\\[1]", "\xc3\xa9"};
Val gen_patch_value(Ctx &c) {
	switch (c.weighted({4, 3, 2, 2, 1, 1, 1})) {
	case 0: return Val::integer(c.pick(4));
	case 1: return Val::str(c.oneof(keys));
	case 2: return Val::null();
	case 3: return Val::boolean(c.coin());
	case 4: return Val::uinteger(c.coin() ? c.pick(4) : UINT64_MAX);
	case 5: return Val::real(c.pick(4) * 0.5);
	default: return Val::blob(c.coin() ? "" : "bytes");
	}
}
Val gen_patch_doc(Ctx &c, unsigned depth) {
	if (depth >= 4 || (depth > 0 && c.chance(3, 5))) return gen_patch_value(c);
	Val v = c.coin() ? Val::map() : Val::list();
	unsigned n = 0, max = depth == 0 && c.chance(1, 15) ? 14 : 5;
	if (v.t == Val::List) while (n++ < max && c.more(max > 5 ? 12 : 2)) v.l.push_back(gen_patch_doc(c, depth + 1));
	else while (n++ < max && c.more(2)) { string k = c.chance(1, 3) ? c.oneof(keys) : string(1, "abc"[c.pick(3)]); v.m[k] = gen_patch_doc(c, depth + 1); }
	return v;
}
string gen_pointer(Ctx &c, const Val &doc) {
	Tokens t;
	const Val *v = &doc;
	while (c.more(3)) {
		if (v && v->t == Val::Map && !v->m.empty() && !c.chance(1, 6)) {
			auto i = v->m.begin();
			std::advance(i, c.pick(v->m.size()));
			t.push_back(i->first);
			v = &i->second;
		} else if (v && v->t == Val::List && !v->l.empty() && !c.chance(1, 4)) {
			size_t k = c.pick(v->l.size());
			t.push_back(vp::fmt("%zu", k));
			v = &v->l[k];
		} else {
			size_t n = v && v->t == Val::List ? v->l.size() : 0;
			switch (c.weighted({3, 3, 3, 2, 2})) {
			case 0: t.push_back(vp::fmt("%zu", n)); break;
			case 1: t.push_back("-"); break;
			case 2: t.push_back(c.oneof(keys)); break;
			case 3: { static const char *w[] = {"+0", "-0", "-1", " 0", "0 ", "00", "01", "0x0", "1e0", "1.0", "18446744073709551616", "4294967296", "4294967297", "0a", "+", "\t0"}; t.push_back(w[c.pick(16)]); break; }
			default: t.push_back(vp::fmt("%zu", n + 1 + c.pick(3))); break;
			}
			v = 0;
		}
	}
	string s = ptr_form(t);
	if (c.chance(1, 25)) {
		switch (c.pick(4)) {
		case 0: if (!s.empty()) s.erase(0, 1); break;
		case 1: s += "~"; break;
		case 2: s += "/"; break;
		default: s.insert(c.pick(s.size() + 1), "~2"); break;
		}
	}
	return s;
}

// Path strings and path operations against a model of the document.
#include "core.h"
#include <string.h>
#include <functional>
using namespace libvariant;
using std::string;
using vp::fmt;

const char *vp_rule = "a path of at least two elements, or with a key that needs escaping, used in a round trip or in an operation on a document";

static string path_key(vp::Ctx &c) {
	static const char *k[] = {"a", "b", "key", "", "/", "\\", "[", "]", "a/b", "\\/", "[0]", "a[1]", "\\\\", "0", "[", "/a", "a/", "x]y", " ", ".", "\xc3\xa9", "\\[", "]/"};
	if (c.chance(1, 5)) {
		static const char set[] = "ab/\\[]0 \n\"";
		string s;
		unsigned n = c.pick(5);
		for (unsigned i = 0; i < n; ++i) s += set[c.pick(sizeof(set) - 1)];
		if (c.chance(1, 10)) s += '\0';
		return s;
	}
	if (c.coin()) return k[c.pick(3)];
	return k[c.pick(23)];
}

static unsigned path_index(vp::Ctx &c) {
	if (c.chance(1, 20)) return c.coin() ? 4294967295u : 2147483648u;
	if (c.chance(1, 10)) return (unsigned)c.bits64();
	return c.pick(5);
}

static EPath gen_path(vp::Ctx &c, unsigned avg, bool smallidx) {
	EPath p;
	while (p.size() < 6 && c.more(avg)) {
		if (c.chance(1, 3)) p.push_back(Elem(smallidx ? (unsigned)c.pick(5) : path_index(c)));
		else p.push_back(Elem(path_key(c)));
	}
	return p;
}

static bool same_path(const Path &a, const EPath &b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) {
		if (a[i].IsString() != b[i].key || a[i].IsNumber() == b[i].key) return false;
		if (b[i].key ? a[i].AsString() != b[i].k : a[i].AsUnsigned() != b[i].i) return false;
	}
	return true;
}

static string shown(const Path &p) {
	string s;
	for (auto &e : p) s += e.IsString() ? "/" + vp::quote(e.AsString()) : fmt("[%u]", e.AsUnsigned());
	return s;
}

// "/" at the end of the text is ignored, so a path ending in an empty key has no text
static bool has_text(const EPath &p) { return p.empty() || !p.back().key || !p.back().k.empty(); }
static string esc(const string &k) {
	string s;
	for (char ch : k) { if (strchr("/\\[]", ch) && ch) s += '\\'; s += ch; }
	return s;
}
static string my_text(const EPath &p) {
	if (p.empty()) return "/";
	string s;
	for (auto &e : p) s += e.key ? "/" + esc(e.k) : fmt("[%u]", e.i);
	return s;
}
static bool rich(const EPath &p) {
	if (p.size() >= 2) return true;
	for (auto &e : p) if (e.key && e.k.find_first_of("/\\[]") != string::npos) return true;
	return false;
}

static void roundtrip(vp::Ctx &c) {
	EPath p = gen_path(c, 3, false);
	c.note("path %s", epath_str(p).c_str());
	Path rp = to_path(p);
	string t = PathString(rp);
	if (has_text(p)) {
		Path back = ParsePath(t);
		VP_CHECK(same_path(back, p), "path %s is written as %s and reads back as %s", epath_str(p).c_str(), vp::quote(t).c_str(), shown(back).c_str());
		string mine = my_text(p);
		Path q = ParsePath(mine);
		VP_CHECK(same_path(q, p), "text %s reads as %s", vp::quote(mine).c_str(), shown(q).c_str());
		Path into;
		ParsePath(into, mine);
		VP_CHECK(same_path(into, p), "text %s reads as %s", vp::quote(mine).c_str(), shown(into).c_str());
		if (!p.empty() && p.back().key) {
			q = ParsePath(mine + "/");
			VP_CHECK(same_path(q, p), "text %s with a / at its end reads as %s", vp::quote(mine).c_str(), shown(q).c_str());
		}
		if (rich(p)) c.nontrivial(vp::hash64(mine));
	}
	bool small = true;
	for (auto &e : p) if (!e.key && e.i > 100000) small = false;
	if (small && c.chance(1, 4)) {             // an index that no list can have
		static const char *big[] = {"4294967296", "4294967297", "8589934592", "18446744073709551615", "99999999999999999999"};
		string b = string("[") + big[c.pick(5)] + "]", txt = my_text(p) + b;
		if (p.empty() || !has_text(p)) txt = b;
		Variant doc;
		string build = txt.substr(0, txt.size() - b.size());
		doc.SetPath(build + "[1]", Variant(7));
		Val before = from_variant(doc);
		try {
			Path q = ParsePath(txt);
			VP_CHECK(!doc.HasPath(q), "%s names an element of %s", txt.c_str(), val_str(before).c_str());
		} catch (const std::exception&) { }
		try { doc.ErasePath(txt); } catch (const std::exception&) { }
		VP_CHECK(val_same(from_variant(doc), before), "erasing %s changed %s", txt.c_str(), val_str(before).c_str());
	}
	if (c.chance(1, 4)) {                      // any text: either refused or a path that round trips
		string s;
		unsigned n = c.pick(10);
		static const char set[] = "/[]\\a10-x";
		for (unsigned i = 0; i < n; ++i) s += set[c.pick(sizeof(set) - 1)];
		c.note("text %s", vp::quote(s).c_str());
		Path q;
		try { q = ParsePath(s); } catch (const std::exception&) { return; }
		if (!q.empty() && q.back().IsString() && q.back().AsString().empty()) return;
		Path r = ParsePath(PathString(q));
		VP_CHECK(shown(r) == shown(q), "text %s reads as %s, written and read again %s", vp::quote(s).c_str(), shown(q).c_str(), shown(r).c_str());
	}
}

// ---- operations on a document
static Val gen_doc(vp::Ctx &c, unsigned depth) {
	if (depth >= 4 || (depth && c.coin())) return core_scalar(c);
	Val v = c.chance(1, 3) ? Val::list() : Val::map();
	unsigned n = c.pick(4);
	if (c.chance(1, 120)) for (unsigned i = 0, k = 50 + c.pick(200); i < k; ++i) { if (v.t == Val::List) v.l.push_back(Val::integer(i)); else v.m[vp::fmt("w%u", i)] = Val::integer(i); }
	for (unsigned i = 0; i < n; ++i) { if (v.t == Val::List) v.l.push_back(gen_doc(c, depth + 1)); else v.m[path_key(c)] = gen_doc(c, depth + 1); }
	return v;
}

static Val *child(Val *v, const Elem &e) {
	if (e.key) { if (v->t != Val::Map) return 0; auto i = v->m.find(e.k); return i == v->m.end() ? 0 : &i->second; }
	return v->t == Val::List && e.i < v->l.size() ? &v->l[e.i] : 0;
}
static Val *find(Val *v, const EPath &p, size_t n) {
	for (size_t i = 0; i < n && v; ++i) v = child(v, p[i]);
	return v;
}
static bool store(Val *v, const EPath &p, size_t at, const Val &x) {
	if (at == p.size()) { *v = x; return true; }
	Val w = *v;
	if (w.t == Val::Null) w = p[at].key ? Val::map() : Val::list();
	if (p[at].key ? w.t != Val::Map : w.t != Val::List) return false;
	if (!p[at].key && p[at].i > 100000) return false;
	Val *k = child(&w, p[at]);
	Val fresh;
	if (!k) k = &fresh;
	Val sub = *k;
	if (!store(&sub, p, at + 1, x)) return false;
	if (p[at].key) w.m[p[at].k] = sub;
	else { if (p[at].i >= w.l.size()) w.l.resize(p[at].i + 1); w.l[p[at].i] = sub; }
	*v = w;
	return true;
}
static void erase1(Val *v, const Elem &e) {
	if (e.key) { if (v->t == Val::Map) v->m.erase(e.k); return; }
	if (v->t != Val::List || e.i >= v->l.size()) return;
	if (e.i + 1 == v->l.size()) v->l.pop_back(); else v->l[e.i] = Val();
}
// level 0: containers only; 1: null and empty text on the way too
static void erase_empty(Val *v, const EPath &p, size_t at, int level) {
	if (at >= p.size()) return;
	if (at + 1 == p.size()) { erase1(v, p[at]); return; }
	Val *k = child(v, p[at]);
	if (!k) return;
	erase_empty(k, p, at + 1, level);
	bool empty = (k->t == Val::List && k->l.empty()) || (k->t == Val::Map && k->m.empty());
	if (level && (k->t == Val::Null || (k->t == Val::Str && k->s.empty()))) empty = true;
	if (empty) erase1(v, p[at]);
}

static EPath doc_path(vp::Ctx &c, Val &doc) {
	EPath p;
	Val *v = &doc;
	while (p.size() < 6 && c.more(3)) {
		if (v && v->t == Val::Map && v->m.size() && !c.chance(1, 5)) { auto i = v->m.begin(); std::advance(i, c.pick(v->m.size())); p.push_back(Elem(i->first)); }
		else if (v && v->t == Val::List && v->l.size() && !c.chance(1, 5)) p.push_back(Elem((unsigned)c.pick(v->l.size())));
		else if (c.chance(1, 12)) p.push_back(Elem(~0u - (unsigned)c.pick(2)));
		else if (c.chance(1, 3)) p.push_back(Elem((unsigned)c.pick(5)));
		else p.push_back(Elem(path_key(c)));
		v = v ? child(v, p.back()) : 0;
	}
	return p;
}

static void operations(vp::Ctx &c) {
	Val m = gen_doc(c, 0);
	Variant doc = to_variant(m);
	c.note("document %s", val_str(m).c_str());
	unsigned n = 1 + c.pick(6);
	uint64_t h = val_hash(m);
	bool nt = false;
	for (unsigned k = 0; k < n; ++k) {
		EPath p = doc_path(c, m);
		bool text = has_text(p) && c.coin();
		string ps = my_text(p), n = epath_str(p);
		Path pp = to_path(p);
		const Variant &cd = doc;
		Val *at = find(&m, p, p.size());
		string msg;
		auto threw = [&](std::function<void()> fn) { try { fn(); } catch (const vp::Failure&) { throw; } catch (const std::exception &e) { msg = e.what(); return true; } return false; };
		unsigned op = c.pick(7);
		h = vp::hashmix(h, vp::hash64(ps) + op);
		if (rich(p)) nt = true;
		switch (op) {
		case 0: {
			bool g = false;
			c.note("HasPath %s", n.c_str());
			bool t = threw([&] { g = text ? cd.HasPath(ps) : cd.HasPath(pp); });
			VP_CHECK(!t, "HasPath(%s) failed: %s", n.c_str(), msg.c_str());
			VP_CHECK(g == !!at, "HasPath(%s) is %d in %s", n.c_str(), g, val_str(m).c_str());
			break;
		}
		case 1: {
			Variant g;
			c.note("GetPath %s", n.c_str());
			bool t = threw([&] { g = text ? cd.GetPath(ps) : cd.GetPath(pp); });
			VP_CHECK(t == !at, "GetPath(%s) in %s %s", n.c_str(), val_str(m).c_str(), t ? msg.c_str() : "found something");
			if (at) VP_CHECK(val_same(from_variant(g), *at), "GetPath(%s) is %s", n.c_str(), val_str(from_variant(g)).c_str());
			break;
		}
		case 2: {
			Variant g, d = "default";
			c.note("GetPath %s with a default", n.c_str());
			bool t = threw([&] { g = text ? cd.GetPath(ps, d) : cd.GetPath(pp, d); });
			VP_CHECK(!t, "GetPath(%s) with a default failed: %s", n.c_str(), msg.c_str());
			VP_CHECK(val_same(from_variant(g), at ? *at : Val::str("default")), "GetPath(%s) with a default is %s", n.c_str(), val_str(from_variant(g)).c_str());
			break;
		}
		case 3: {
			c.note("AtPath %s", n.c_str());
			bool t = threw([&] { const Variant &g = text ? cd.AtPath(ps) : cd.AtPath(pp);
				if (at) VP_CHECK(val_same(from_variant(g), *at), "AtPath(%s) is %s", n.c_str(), val_str(from_variant(g)).c_str()); });
			VP_CHECK(t == !at, "AtPath(%s) in %s %s", n.c_str(), val_str(m).c_str(), t ? msg.c_str() : "found something");
			break;
		}
		case 4: {
			Val x = c.chance(1, 3) ? gen_doc(c, 3) : core_scalar(c);
			Val w = m;
			bool ok = store(&w, p, 0, x);
			// lists of such lengths could only fail for lack of memory
			bool big = false;
			for (auto &e : p) if (!e.key && e.i > 100000 && e.i != ~0u) big = true;
			if (big) break;
			c.note("SetPath %s = %s%s", n.c_str(), val_str(x).c_str(), ok ? "" : "   (rejected)");
			bool t = threw([&] { Variant v = to_variant(x); if (text) doc.SetPath(ps, v); else doc.SetPath(pp, v); });
			VP_CHECK(t == !ok, "SetPath(%s) in %s %s", n.c_str(), val_str(m).c_str(), t ? msg.c_str() : "succeeded");
			if (ok) m = w;
			break;
		}
		case 5: {
			Val *parent = p.empty() ? 0 : find(&m, p, p.size() - 1);
			// refused when the parent is there but cannot have such elements
			bool wrong = parent && parent->t != Val::Null && (p.back().key ? parent->t != Val::Map : parent->t != Val::List);
			c.note("ErasePath %s", n.c_str());
			bool t = threw([&] { if (text) doc.ErasePath(ps); else doc.ErasePath(pp); });
			if (at || p.empty()) VP_CHECK(!t, "ErasePath(%s) failed: %s", n.c_str(), msg.c_str());
			(void)wrong;
			if (!t && !p.empty() && parent) erase1(parent, p.back());
			break;
		}
		default: {
			c.note("ErasePath %s and empty parents", n.c_str());
			bool t = threw([&] { if (text) doc.ErasePath(ps, true); else doc.ErasePath(pp, true); });
			if (at || p.empty()) VP_CHECK(!t, "ErasePath(%s, true) failed: %s", n.c_str(), msg.c_str());
			if (t) break;
			Val a = m, b = m;
			erase_empty(&a, p, 0, 0); erase_empty(&b, p, 0, 1);
			Val got = from_variant(doc);
			VP_CHECK(val_same(got, a) || val_same(got, b), "ErasePath(%s, true) of %s gave %s", n.c_str(), val_str(m).c_str(), val_str(got).c_str());
			m = got;
			break;
		}
		}
		Val got = from_variant(doc);
		VP_CHECK(val_same(got, m), "after the operation on %s: %s", n.c_str(), val_diff(m, got).c_str());
		// what was stored is found again
		if (op == 4 && c.coin()) { Val *v = find(&m, p, p.size()); if (v) VP_CHECK(cd.HasPath(pp) && val_same(from_variant(cd.GetPath(pp)), *v), "%s is not found after being set", n.c_str()); }
	}
	if (nt) c.nontrivial(h);
}

void vp_case(vp::Ctx &c) {
	if (c.chance(1, 3)) roundtrip(c); else operations(c);
}

// C25: references between schemas and joining of URIs.
#include "refschema.h"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Variant.h>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
#include <set>
#include <string.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
using std::vector;
const char *vp_rule = "a reference other than \"#\" is followed, or a relative URI with a dot segment is joined";

// ---- RFC 3986, section 5.2 -------------------------------------------------
struct Uri { string scheme, auth, path, query, frag; bool hs, ha, hq, hf; };
static Uri parse_uri(string s) {
	Uri u; u.hs = u.ha = u.hq = u.hf = false;
	size_t p;
	if ((p = s.find('#')) != string::npos) { u.hf = true; u.frag = s.substr(p + 1); s.erase(p); }
	if ((p = s.find('?')) != string::npos) { u.hq = true; u.query = s.substr(p + 1); s.erase(p); }
	if ((p = s.find(':')) != string::npos && p && s.find('/') >= p) { u.hs = true; u.scheme = s.substr(0, p); s.erase(0, p + 1); }
	if (s.compare(0, 2, "//") == 0) { u.ha = true; p = s.find('/', 2); u.auth = s.substr(2, p == string::npos ? p : p - 2); s = p == string::npos ? "" : s.substr(p); }
	u.path = s;
	return u;
}
static bool over_root;                 // a ".." went above the root
static string dots(string in) {
	string out;
	auto pre = [&](const char *p) { return in.compare(0, strlen(p), p) == 0; };
	auto pop = [&] { size_t p = out.rfind('/'); if (p == string::npos) { if (out.empty()) over_root = true; out.clear(); } else out.erase(p); };
	while (!in.empty()) {
		if (pre("../")) { in.erase(0, 3); over_root = true; }
		else if (pre("./")) in.erase(0, 2);
		else if (pre("/./")) in.erase(0, 2);
		else if (in == "/.") in = "/";
		else if (pre("/../")) { in.erase(0, 3); pop(); }
		else if (in == "/..") { in = "/"; pop(); }
		else if (in == "." || in == "..") { if (in == "..") over_root = true; in.clear(); }
		else { size_t p = in.find('/', 1); out += in.substr(0, p); in = p == string::npos ? "" : in.substr(p); }
	}
	return out;
}
static string join(const string &base, const string &ref) {
	over_root = false;
	Uri b = parse_uri(base), r = parse_uri(ref), t = r;
	if (r.hs) t.path = dots(r.path);
	else {
		t.hs = b.hs; t.scheme = b.scheme;
		if (r.ha) t.path = dots(r.path);
		else {
			t.ha = b.ha; t.auth = b.auth;
			if (r.path.empty()) { t.path = b.path; if (!r.hq) { t.hq = b.hq; t.query = b.query; } }
			else if (r.path[0] == '/') t.path = dots(r.path);
			else if (b.ha && b.path.empty()) t.path = dots("/" + r.path);
			else { size_t p = b.path.rfind('/'); t.path = dots((p == string::npos ? "" : b.path.substr(0, p + 1)) + r.path); }
		}
	}
	return (t.hs ? t.scheme + ":" : "") + (t.ha ? "//" + t.auth : "") + t.path + (t.hq ? "?" + t.query : "") + (t.hf ? "#" + t.frag : "");
}
static string segment(Ctx &c) {
	static const char *const s[] = {"a", "..", ".", "b", "c.json", "g;x=1", "a@b", "d:e", "...", "x..", "%2e", "~u", "", "A-z_0"};
	return s[c.pick(14)];
}
static string some_path(Ctx &c, bool dotted) {
	string p;
	do {
		string s = segment(c);
		if (!dotted && (s == "." || s == ".." || s.empty())) s = "q";
		p += s;
		if (!c.more(2)) break;
		p += "/";
	} while (true);
	if (c.chance(1, 4)) p += "/";
	return p;
}
static void uri_case(Ctx &c) {
	static const char *const auth[] = {"h", "example.com", "u@h", "u:p@h", "h:80", "1.2.3.4"};
	static const char *const scheme[] = {"http", "ftp", "x-y.z+1"};
	string base = string(scheme[c.pick(3)]) + "://" + auth[c.pick(6)];
	if (c.chance(9, 10)) base += "/" + (c.chance(9, 10) ? some_path(c, false) : "");
	if (c.chance(1, 4)) base += c.coin() ? "?q=1/../2" : "?a";
	string ref;
	bool path = true;
	switch (c.weighted({10, 4, 2, 1, 1})) {
	case 0: ref = some_path(c, true); break;
	case 1: ref = "/" + some_path(c, true); break;
	case 2: path = false; break;
	case 3: ref = string("//") + auth[c.pick(6)]; if (c.coin()) ref += "/" + some_path(c, true); break;
	default: ref = string(scheme[c.pick(3)]) + "://" + auth[c.pick(6)]; if (c.coin()) ref += "/" + some_path(c, true); break;
	}
	(void)path;
	if (c.chance(1, 4)) ref += c.coin() ? "?y/./x" : "?y=a@b:c";
	if (c.chance(1, 3)) ref += c.pick(3) == 0 ? "#" : c.coin() ? "#/a~1b/0" : "#s?/../x";
	c.note("base %s", base.c_str());
	c.note("ref  %s", ref.c_str());
	// the first segment of a relative path cannot hold a colon, and "//" starts an authority
	Uri r = parse_uri(ref);
	if (r.hs && ref.find("://") != r.scheme.size()) throw vp::Discard();
	if (!r.hs && r.path.substr(0, r.path.find('/')).find(':') != string::npos) throw vp::Discard();
	string want = join(base, ref);
	if (over_root || want.find("//", want.find("://") + 3) != string::npos) { c.label("joined: outside the asserted part"); return; }
	if (!r.hs && !r.ha && r.path.compare(0, 2, "//") == 0) throw vp::Discard();
	// an empty query or fragment need not be kept
	string got = SchemaLoader::ResolveURI(base, ref);
	auto norm = [](string s) { if (!s.empty() && s[s.size() - 1] == '#') s.erase(s.size() - 1); return s; };
	VP_CHECK(norm(got) == norm(want), "joined %s and %s: %s, not %s", base.c_str(), ref.c_str(), got.c_str(), want.c_str());
	c.evals(1);
	c.label("joined a URI");
	if (r.path.find("./") != string::npos || r.path.find("..") != string::npos) c.nontrivial(vp::hash64(base + " " + ref));
}

// ---- layouts of schemas ------------------------------------------------------
struct Addr { string uri; vector<string> ptr; bool named; };
struct Target { vector<Addr> addrs; Val model; unsigned doc; };
struct Hole { string base; unsigned doc; Val *lib, *model; };
struct Scope { string base; vector<Addr> here; unsigned doc; };
static vector<Target *> targets;
static std::map<string, const Val *> named;
struct Doc { string uri; Val lib, model; bool has_id; };

static string esc_ptr(Ctx &c, const vector<string> &p) {
	string r;
	for (auto &t : p) {
		r += "/";
		for (char ch : t) {
			string e = ch == '~' ? "~0" : ch == '/' ? "~1" : string(1, ch);
			for (char k : e) {
				bool must = !(isalnum((unsigned char)k) || strchr("~-._!$&'()*+,;=:@/?", k));
				if (must || c.chance(1, 12)) r += vp::fmt(c.coin() ? "%%%02X" : "%%%02x", (unsigned char)k);
				else r += k;
			}
		}
	}
	return r;
}
static string name(Ctx &c) {
	static const char *const n[] = {"x", "y", "a/b", "m~n", "p q", "50%", "", "\xc3\xa9", "#", "0", "enum", "default", "id", "$ref", "%41", "~1", "properties", "definitions"};
	return n[c.chance(2, 3) ? c.pick(2) : c.pick(18)];
}
static int next_leaf;
static unsigned next_name, budget;
static vector<Hole> holes;
static vector<std::pair<Val *, unsigned>> model_of;       // filled once the trees stand still

// A tree under construction; children are kept behind pointers so that they stay put.
struct Node {
	string kw;                                   // keyword of the wrapper, "" for a leaf, "$ref" for a reference
	vector<std::pair<string, Node *>> kids;      // names or numbers
	int leaf; string id; string ref; string base; vector<Addr> addrs; unsigned index;
	unsigned doc;
	Val data, dflt; bool has_data, has_dflt;     // the value a leaf wants, when it is not its number; data beside it
	Node() : leaf(0), index(0), doc(0), has_data(false), has_dflt(false) {}
};
static vector<Node *> nodes;
static Node *node() { Node *n = new Node; n->index = nodes.size(); nodes.push_back(n); return n; }
static void free_nodes() { for (Node *n : nodes) delete n; nodes.clear(); }
static const char *const wrappers[] = {"properties", "definitions", "allOf", "items", "additionalProperties", "anyOf", "patternProperties", "dependencies", "not", "itemlist", "oneOf", "additionalItems"};
// data that looks like a schema
static Val disguise(Ctx &c, int n) {
	static const char *const texts[] = {"#", "#n0", "a.json", "#/definitions/x", "s0.json", "../x"};
	Val v = Val::map();
	v.m[c.coin() ? "$ref" : "id"] = Val::str(texts[c.pick(6)]);
	v.m["n"] = Val::integer(n);
	switch (c.pick(4)) {
	case 0: { Val l = Val::list(); l.l.push_back(v); return l; }
	case 1: { Val m = Val::map(); m.m[c.coin() ? "properties" : "k"] = v; return m; }
	default: return v;
	}
}
static Node *grow(Ctx &c, const Scope &sc, unsigned depth, bool root) {
	Node *n = node();
	n->doc = sc.doc; n->base = sc.base; n->addrs = sc.here;
	Scope in = sc;
	if (!root && c.chance(1, 6)) {
		// an identifier of its own
		string self = sc.base.substr(0, sc.base.find('#'));
		if (!self.empty() && self[self.size() - 1] == '/' && c.coin()) {
			string f = vp::fmt(c.chance(1, 4) ? "schemas/of/another/kind/s%u.json" : "s%u.json", next_name++);
			n->id = c.coin() ? f : self + f;
			Addr a = {self + f, {}, false};
			in.base = self + f;
			in.here.push_back(a);
		} else if (parse_uri(self).hs && self.find('?') == string::npos && c.chance(1, 3)) {
			n->id = vp::fmt(c.chance(1, 4) ? "?version-of-this-schema=%u" : "?v%u", next_name++);
			Addr a = {self + n->id, {}, false};
			in.base = self + n->id;
			in.here.push_back(a);
		} else {
			n->id = vp::fmt(c.chance(1, 4) ? "#a-rather-long-name-of-a-schema-%u" : "#n%u", next_name++);
			Addr a = {self + n->id, {}, true};
			n->addrs.push_back(a);
			in.base = self + n->id;
		}
		n->base = in.base;
		for (auto &a : in.here) if (!a.named) { bool have = false; for (auto &b : n->addrs) if (b.uri == a.uri && b.ptr == a.ptr) have = true; if (!have) n->addrs.push_back(a); }
	}
	if (!root && budget && c.chance(2, 5)) { n->kw = "$ref"; n->id.clear(); n->base = sc.base; n->addrs = sc.here; return n; }
	if (depth >= 4 || !budget || (!root && c.chance(1, 3))) {
		n->leaf = ++next_leaf;
		if (c.chance(1, 5)) { n->has_data = true; n->data = disguise(c, n->leaf); }
		if (c.chance(1, 10)) { n->has_dflt = true; n->dflt = disguise(c, n->leaf); }
		return n;
	}
	unsigned k = root ? 1 + c.pick(3) : 1 + c.pick(2);
	std::set<string> used;
	for (unsigned i = 0; i < k; ++i) {
		string w = root && i == 0 && sc.doc == 0 ? "properties" : root && i == 0 ? "definitions" : wrappers[c.pick(12)];
		if (!used.insert(w).second) continue;
		if (w == "items" && used.count("itemlist")) continue;
		if (w == "itemlist" && used.count("items")) continue;
		string key = w == "itemlist" ? "items" : w;
		bool names = w == "properties" || w == "definitions" || w == "patternProperties" || w == "dependencies";
		bool list = w == "allOf" || w == "anyOf" || w == "oneOf" || w == "itemlist";
		std::set<string> nn;
		unsigned count = names || list ? 1 + c.pick(3) : 1;
		for (unsigned j = 0; j < count && budget; ++j) {
			string nm;
			if (names) { nm = w == "patternProperties" ? vp::fmt("^%c", "xy0"[c.pick(3)]) : name(c); if (!nn.insert(nm).second) continue; }
			else if (list) nm = vp::fmt("%u", j);
			--budget;
			Scope s = in;
			for (auto &a : s.here) { a.ptr.push_back(key); if (names || list) a.ptr.push_back(nm); }
			n->kids.push_back({w + (names || list ? "/" + nm : ""), grow(c, s, depth + 1, false)});
		}
	}
	return n;
}
static Val render(const Node *n, bool model) {
	Val v = Val::map();
	if (!model && !n->id.empty()) v.m["id"] = Val::str(n->id);
	if (n->kw == "$ref") { v.m["$ref"] = Val::str(n->ref); if (model) v.m["$ref"] = Val::str(vp::fmt("T%u", n->index)); return v; }
	if (n->leaf) { Val l = Val::list(); l.l.push_back(n->has_data ? n->data : Val::integer(n->leaf)); v.m["enum"] = l; if (n->has_dflt) v.m["default"] = n->dflt; return v; }
	for (auto &k : n->kids) {
		size_t p = k.first.find('/');
		string w = k.first.substr(0, p), nm = p == string::npos ? "" : k.first.substr(p + 1);
		Val sub = render(k.second, model);
		if (p == string::npos) v.m[w] = sub;
		else if (w == "allOf" || w == "anyOf" || w == "oneOf" || w == "itemlist") {
			string key = w == "itemlist" ? "items" : w;
			if (!v.m.count(key)) v.m[key] = Val::list();
			v.m[key].l.push_back(sub);
		} else {
			if (!v.m.count(w)) v.m[w] = Val::map();
			v.m[w].m[nm] = sub;
		}
	}
	return v;
}
// a text that refers from base to the address
static string ref_text(Ctx &c, const string &base, const Addr &a) {
	string full = a.uri, frag;
	if (a.named) { size_t p = full.find('#'); frag = full.substr(p); full.erase(p); }
	else { frag = esc_ptr(c, a.ptr); frag = frag.empty() && c.chance(2, 3) ? "" : "#" + frag; }
	string self = base.substr(0, base.find('#'));
	vector<string> cand;
	cand.push_back(full + frag);
	if (parse_uri(full).hq) cand.push_back("?" + parse_uri(full).query + frag);
	if (full == self) { cand.push_back(frag.empty() ? "#" : frag); cand.push_back(cand.back()); }
	Uri b = parse_uri(self), t = parse_uri(full);
	if (b.scheme == t.scheme && b.auth == t.auth && b.ha == t.ha && !t.path.empty()) {
		if (t.path[0] == '/') cand.push_back(t.path + (t.hq ? "?" + t.query : "") + frag);
		if (t.ha && b.hs) cand.push_back("//" + t.auth + t.path + (t.hq ? "?" + t.query : "") + frag);
		string bd = b.path.substr(0, b.path.rfind('/') == string::npos ? 0 : b.path.rfind('/') + 1), tp = t.path;
		string up;
		while (tp.compare(0, bd.size(), bd) && !bd.empty()) { bd.erase(bd.size() - 1); bd.erase(bd.rfind('/') == string::npos ? 0 : bd.rfind('/') + 1); up += "../"; }
		string rel = up + tp.substr(bd.size());
		if (rel.empty()) rel = "./";
		rel += (t.hq ? "?" + t.query : "") + frag;
		cand.push_back(rel);
		if (up.empty()) cand.push_back("./" + rel);
	}
	auto norm = [](string s) { if (!s.empty() && s[s.size() - 1] == '#') s.erase(s.size() - 1); return s; };
	vector<string> good;
	for (auto &x : cand) {
		string j = join(self, x);
		if (!b.hs && !b.ha && !self.empty() && self[0] != '/' && !j.empty() && j[0] == '/') j.erase(0, 1);      // a name, not an absolute path
		if (norm(j) == norm(full + frag) && !over_root) good.push_back(x.empty() ? "#" : x);
	}
	return good.empty() ? "" : good[c.pick(good.size())];
}
static std::map<string, const Val *> resolved;
static unsigned followed;
static const Val *lookup(const string &t) { if (++followed > 3000) return 0;   // circular
	 auto i = resolved.find(t); return i == resolved.end() ? 0 : i->second; }
// an instance made with the schema in view
static Val inst(Ctx &c, const Val &s, unsigned depth) {
	auto has = [&](const char *k) -> const Val * { auto i = s.m.find(k); return i == s.m.end() ? 0 : &i->second; };
	const Val *k;
	if (depth > 6 || c.chance(1, 10)) return Val::integer(1 + c.pick(next_leaf + 1));
	if ((k = has("$ref"))) { const Val *t = resolved[k->s]; return t ? inst(c, *t, depth + 1) : Val::integer(1); }
	if ((k = has("enum"))) return k->l[0];
	for (const char *w : {"allOf", "anyOf", "oneOf"}) if ((k = has(w)) && !k->l.empty() && c.coin()) return inst(c, k->l[c.pick(k->l.size())], depth + 1);
	if (((k = has("items")) || (k = has("additionalItems"))) && (c.coin() || !has("properties"))) {
		Val l = Val::list();
		if (k->t == Val::List) for (auto &x : k->l) l.l.push_back(inst(c, x, depth + 1));
		else while (l.l.size() < 3 && c.coin()) l.l.push_back(inst(c, *k, depth + 1));
		if ((k = has("additionalItems")) && c.coin()) l.l.push_back(inst(c, *k, depth + 1));
		return l;
	}
	Val m = Val::map();
	if ((k = has("properties"))) for (auto &p : k->m) if (c.chance(3, 4)) m.m[p.first] = inst(c, p.second, depth + 1);
	if ((k = has("patternProperties")) && !k->m.empty() && c.coin()) { auto &p = *k->m.begin(); m.m[p.first.substr(1) + "zz"] = inst(c, p.second, depth + 1); }
	if ((k = has("additionalProperties")) && c.coin()) m.m["other"] = inst(c, *k, depth + 1);
	if ((k = has("dependencies")) && !k->m.empty() && c.coin()) { auto &p = *k->m.begin(); Val d = inst(c, p.second, depth + 1); if (d.t == Val::Map) for (auto &x : d.m) m.m[x.first] = x.second; m.m[p.first]; if (m.m[p.first].t == Val::Null) m.m[p.first] = Val::integer(1); }
	return m;
}
// the schema handed over stays the caller's
static bool scribble;
static std::map<string, Variant> add(SchemaLoader *l, const string &uri, const Val &schema) {
	Variant v = to_variant(schema);
	std::map<string, Variant> r = l->AddSchema(uri, v);
	Val after = from_variant(v);
	VP_CHECK(val_same(after, schema), "registering a schema changed it to %s", val_str(after).c_str());
	if (scribble) { v["enum"] = Variant(Variant::ListType); v["enum"].Append(Variant("scribbled")); v["type"] = "null"; v.Erase("definitions"); if (v.Contains("properties")) v["properties"].Clear(); }
	return r;
}
static std::map<string, Val> *waiting;
static bool bring(SchemaLoader *l, const string &uri, SchemaLoader::LoaderError &err, void *) {
	auto i = waiting->find(uri);
	if (i == waiting->end()) { err.AddError(uri, "not here"); return false; }
	add(l, uri, i->second);
	return true;
}
// the same schema with other values in each leaf
static void alter(Val &v) {
	if (v.t == Val::List) for (auto &x : v.l) alter(x);
	if (v.t == Val::Map) for (auto &x : v.m) alter(x.second);
	if (v.t == Val::Int || v.t == Val::UInt) v = Val::str("other");
}
struct Guard { ~Guard() { free_nodes(); } };

void vp_case(Ctx &c) {
	if (c.chance(1, 3)) { uri_case(c); return; }
	Guard guard;
	next_leaf = 0; next_name = 0; budget = 24; resolved.clear(); followed = 0;
	enum { DIRECT, HANDLER, PARENT, FILES } mode = (decltype(DIRECT))c.weighted({8, 3, 3, 1});
	static const char *const uris[] = {"http://h/a.json", "http://h/d/", "http://h/d/e/f.json", "http://k/a.json", "http://h/q.json?v=1", "defs.json", "lib/one.json", "http://h/u@v/w.json", "urn:x:1"};
	string dir = mode == FILES ? vp::scratch() + "/c25" : "";
	vector<string> pool(uris, uris + 9);
	if (mode == FILES) pool = {"file://" + dir + "/a.json", "file://" + dir + "/d/b.json", "defs.json", "d/c.json"};
	unsigned ndocs = 1 + c.pick(4);
	vector<Node *> roots; vector<string> uri;
	for (unsigned d = 0; d < ndocs; ++d) {
		string u, id;
		bool relative = false;
		if (d == 0) {
			if (c.chance(1, 3)) u = c.coin() ? "http://r/root.json" : "http://h/d/r/";
			relative = u.empty();
		} else {
			u = pool[c.pick(pool.size())];
			bool dup = false;
			for (auto &x : uri) if (x == u) dup = true;
			if (dup) continue;
		}
		(void)relative;
		Scope s = {u, {}, (unsigned)uri.size()};
		Addr a = {u, {}, false};
		s.here.push_back(a);
		Node *n = grow(c, s, 0, true);
		if (d == 0) n->id = u;
		else if (c.chance(1, 6) && parse_uri(u).hs) n->id = u;
		roots.push_back(n);
		uri.push_back(u);
	}
	// references
	vector<Node *> refs;
	for (Node *n : nodes) if (n->kw == "$ref") refs.push_back(n);
	bool spoil = c.chance(1, 8);
	std::map<unsigned, Node *> points;
	for (Node *n : refs) {
		Node *t = nodes[c.pick(nodes.size())];
		for (unsigned i = 0; i < 3 && (t == n || t->doc == 0) && n->doc != 0; ++i) t = nodes[c.pick(nodes.size())];
		if (t == n) t = roots[0];
		if (n->doc != 0 && t->doc == 0 && uri[0].empty()) t = roots[n->doc];   // the root is not known under a URI there
		if (n->doc != 0 && t->doc == 0) t = roots[n->doc];
		vector<Addr> as;
		auto reach = [&](const Node *t) { as.clear(); bool here = !parse_uri(n->base).hs; for (auto &a : t->addrs) if ((here || parse_uri(a.uri).hs) && (mode == DIRECT || mode == PARENT || t->doc == n->doc || a.uri.substr(0, a.uri.find('#')) == uri[t->doc])) as.push_back(a); };
		reach(t);
		if (as.empty()) { t = roots[n->doc]; reach(t); }    // a schema with a relative name, seen from an absolute URI
		n->ref = ref_text(c, n->base, as[c.pick(as.size())]);
		if (n->ref.empty()) {                      // one's own schema by the shortest way
			t = roots[n->doc];
			for (Node *r : nodes) if (r->doc == n->doc && !r->addrs.empty()) for (auto &a : r->addrs) if (a.uri == n->base.substr(0, n->base.find('#')) && a.ptr.empty() && !a.named) t = r;
			n->ref = "#";
		}
		points[n->index] = t;
	}
	vector<Val> lib, model(nodes.size());
	for (unsigned i = 0; i < roots.size(); ++i) lib.push_back(render(roots[i], false));
	for (auto &p : points) model[p.second->index] = render(p.second, true);
	for (auto &p : points) resolved[vp::fmt("T%u", p.first)] = &model[p.second->index];
	Val mroot = render(roots[0], true);
	for (unsigned i = 0; i < lib.size(); ++i) c.note("%s: %s", uri[i].empty() ? "root" : uri[i].c_str(), val_str(lib[i]).c_str());
	Val x = inst(c, mroot, 0);
	string form = "given";
	// ---- deliver
	SchemaLoader plain, upper(&plain);
	AdvSchemaLoader files;
	SchemaLoader *loader = mode == FILES ? &files : mode == PARENT ? &upper : &plain;
	scribble = c.coin();
	std::map<string, Val> later;
	waiting = &later;
	if (mode == FILES) {
		string cmd;
		mkdir(dir.c_str(), 0700); mkdir((dir + "/d").c_str(), 0700);
		files.AddPath("/nonexistent"); files.AddPath(dir);
	}
	// what is registered and forgotten leaves no trace
	vector<string> gone;
	if ((mode == DIRECT || mode == HANDLER) && c.chance(1, 4)) {
		unsigned d = c.pick(lib.size() + 1);
		Val decoy = d < lib.size() ? lib[d] : Val::map();
		alter(decoy);
		string u = d < lib.size() && d ? uri[d] : "http://gone/x.json";
		std::map<string, Variant> got = add(loader, u, decoy);
		VP_CHECK(got.count(u), "registered under %s, but not reported there", u.c_str());
		for (auto &g : got) gone.push_back(g.first);
		for (auto &g : gone) loader->ForgetSchema(g);
		c.label("forgotten");
		c.note("registered and forgotten: %s %s", u.c_str(), val_str(decoy).c_str());
	}
	for (unsigned i = 1; i < lib.size(); ++i) {
		switch (mode) {
		case DIRECT: add(loader, uri[i], lib[i]); break;
		case HANDLER: later[uri[i]] = lib[i]; break;
		case PARENT: add(c.coin() ? &plain : &upper, uri[i], lib[i]); break;
		case FILES: {
			string f = uri[i].compare(0, 7, "file://") ? dir + "/" + uri[i] : uri[i].substr(7);
			SerializeJSON(f.c_str(), to_variant(lib[i]));
			break; }
		}
	}
	// PARENT: documents of the parent cannot see those of the child
	if (mode == PARENT) for (Node *n : refs) if (n->doc && points[n->index]->doc != n->doc) throw vp::Discard();
	if (mode == HANDLER) plain.SetMissingHandler(bring, 0);
	if (mode == DIRECT && lib.size() > 1 && c.chance(1, 4)) {
		// registering again changes nothing
		unsigned d = 1 + c.pick(lib.size() - 1);
		Val other = Val::map(); other.m["enum"] = Val::list(); other.m["enum"].l.push_back(Val::str("other"));
		if (c.coin()) { other = lib[d]; alter(other); }        // with the same identifiers inside
		add(loader, uri[d], other);
		c.label("registered again");
	}
	Variant vs = to_variant(lib[0]), vx = to_variant(x);
	if (mode == DIRECT && !uri[0].empty() && c.chance(1, 3)) {
		add(loader, uri[0], lib[0]);
		vs = uri[0];
		form = "by URI";
		if (x.t == Val::Map && c.coin()) { x.m["$schema"] = Val::str(uri[0]); vx = to_variant(x); vs = Variant(); form = "by $schema"; }
	}
	if (spoil && mode != FILES) {
		static const char *const bad[] = {"#/definitions/none", "#none", "http://nowhere/x.json", "none.json#/a", "#/definitions/none/more", "#/allOf/9"};
		Val b = Val::map(); b.m["$ref"] = Val::str(bad[c.pick(6)]);
		for (auto &g : gone) if (g.compare(0, 12, "http://gone/") == 0 && c.coin()) b.m["$ref"] = Val::str(g);
		Val s = lib[0]; s.m.erase("allOf"); s.m.erase("properties"); s.m.erase("items");
		if (s.m.count("definitions")) s.m["definitions"].m.erase("none");
		Val y;
		switch (c.pick(3)) {
		case 0: { Val l = Val::list(); l.l.push_back(b); s.m["allOf"] = l; y = Val::integer(1); break; }
		case 1: { Val p = Val::map(); p.m["a"] = b; s.m["properties"] = p; y = Val::map(); y.m["a"] = Val::integer(1); break; }
		default: s.m["items"] = b; y = Val::list(); y.l.push_back(Val::integer(1)); break;
		}
		c.note("schema   %s", val_str(s).c_str());
		c.note("instance %s", val_str(y).c_str());
		bool ok = false;
		try { ok = !SchemaValidate(to_variant(s), to_variant(y), loader).Error(); } catch (const std::exception &) {}
		VP_CHECK(!ok, "an unresolvable reference is accepted");
		c.evals(1);
		c.label("unresolvable");
		c.nontrivial(vp::hash64(val_str(s)));
		return;
	}
	c.note("instance %s, schema %s", val_str(x).c_str(), form.c_str());
	RefResolver rr = lookup;
	followed = 0; ref_schema_deep = false;
	Tri want = ref_schema(mroot, x, &rr);
	bool threw = false, got = false; string why;
	try { SchemaResult r = SchemaValidate(vs, vx, loader); got = !r.Error(); if (!got) why = r.PrettyPrintMessage(); } catch (const std::exception &e) { threw = true; why = e.what(); }
	if (form == "given") { Val after = from_variant(vs); VP_CHECK(val_same(after, lib[0]), "validating changed the schema to %s", val_str(after).c_str()); }
	if (want == OPEN || ref_schema_deep || followed > 3000) { c.label("left open"); return; }
	VP_CHECK(!threw, "throws %s", why.c_str());
	VP_CHECK(got == (want == YES), "%s, but it is %s: %s", got ? "accepted" : "rejected", want == YES ? "valid" : "invalid", why.c_str());
	c.evals(1);
	c.label(mode == DIRECT ? "registered" : mode == HANDLER ? "missing handler" : mode == PARENT ? "two loaders" : "files");
	c.label(want == YES ? "valid" : "invalid");
	bool real = false;
	for (Node *n : refs) if (n->ref != "#") real = true;
	if (followed && real) { uint64_t h = val_hash(x); for (auto &l : lib) h = vp::hashmix(h, val_hash(l)); c.nontrivial(h); }
}

#include "core.h"
using namespace libvariant;
using std::string;
using vp::fmt;

const std::vector<string> core_keys = {"a", "b", "c", "", "x/y", "0", "k\\[1]"};

string epath_str(const EPath &p) {
	string s;
	for (auto &e : p) s += e.key ? "/" + vp::quote(e.k) : fmt("[%u]", e.i);
	return s.empty() ? "(self)" : s;
}

Path to_path(const EPath &p) {
	Path r;
	for (auto &e : p) { if (e.key) r.push_back(e.k); else r.push_back(e.i); }
	return r;
}

MV mv_scalar(const Val &v) { MV m; m.s = v; return m; }
MV mv_list() { MV m; m.s.t = Val::List; m.o.reset(new MObj); return m; }
MV mv_map() { MV m; m.s.t = Val::Map; m.o.reset(new MObj); m.o->list = false; return m; }

MV mv_from(const Val &v) {
	if (v.t == Val::List) {
		MV m = mv_list();
		for (auto &x : v.l) { CellP c(new Cell); c->v = mv_from(x); m.o->l.push_back(c); }
		return m;
	}
	if (v.t == Val::Map) {
		MV m = mv_map();
		for (auto &x : v.m) { CellP c(new Cell); c->v = mv_from(x.second); m.o->m[x.first] = c; }
		return m;
	}
	return mv_scalar(v);
}

Val mv_val(const MV &v) {
	if (!v.o) return v.s;
	Val r = v.o->list ? Val::list() : Val::map();
	for (auto &x : v.o->l) r.l.push_back(mv_val(x->v));
	for (auto &x : v.o->m) r.m[x.first] = mv_val(x.second->v);
	return r;
}

MV mv_copy(const MV &v) { return mv_from(mv_val(v)); }

bool mv_reaches(const MV &v, const MObj *o) {
	if (!v.o) return false;
	if (v.o.get() == o) return true;
	for (auto &x : v.o->l) if (mv_reaches(x->v, o)) return true;
	for (auto &x : v.o->m) if (mv_reaches(x.second->v, o)) return true;
	return false;
}

CellP m_child(const CellP &c, const Elem &e) {
	if (e.key) {
		if (!c->v.ismap()) return CellP();
		auto i = c->v.o->m.find(e.k);
		return i == c->v.o->m.end() ? CellP() : i->second;
	}
	if (!c->v.islist() || e.i >= c->v.o->l.size()) return CellP();
	return c->v.o->l[e.i];
}

CellP m_lookup(CellP c, const EPath &p, size_t from) {
	for (; c && from < p.size(); ++from) c = m_child(c, p[from]);
	return c;
}

bool m_writable(const CellP &c0, const EPath &p, size_t from) {
	CellP c = c0;
	for (; from < p.size(); ++from) {
		if (!p[from].key && p[from].i == ~0u) return false;
		if (c->v.isnull()) {
			for (size_t j = from; j < p.size(); ++j)
				if (!p[j].key && p[j].i == ~0u) return false;
			return true;
		}
		if (p[from].key ? !c->v.ismap() : !c->v.islist()) return false;
		CellP n = m_child(c, p[from]);
		if (!n) {
			for (size_t j = from; j < p.size(); ++j)
				if (!p[j].key && p[j].i == ~0u) return false;
			return true;
		}
		c = n;
	}
	return true;
}

CellP m_create(CellP c, const EPath &p, size_t from) {
	for (; from < p.size(); ++from) {
		const Elem &e = p[from];
		if (c->v.isnull()) c->v = e.key ? mv_map() : mv_list();
		if (e.key) {
			CellP &n = c->v.o->m[e.k];
			if (!n) n.reset(new Cell);
			c = n;
		} else {
			std::vector<CellP> &l = c->v.o->l;
			while (l.size() <= e.i) l.push_back(CellP(new Cell));
			c = l[e.i];
		}
	}
	return c;
}

string Same::check(const Variant &v, const MV &m, const string &where) {
	if (m.o) {
		if (m.o->list) {
			if (!v.IsList()) return where + ": expected a list, type is " + fmt("%d", (int)v.GetType());
		} else if (!v.IsMap()) {
			return where + ": expected a map, type is " + fmt("%d", (int)v.GetType());
		}
		const void *addr = m.o->list ? (const void*)&v.AsList() : (const void*)&v.AsMap();
		auto f = fwd.find(m.o.get());
		auto b = back.find(addr);
		if (f != fwd.end()) {
			if (f->second != addr) return where + ": should be the same container as another handle, but is a separate one";
			return "";
		}
		if (b != back.end()) return where + ": should be a separate container, but is shared";
		fwd[m.o.get()] = addr;
		back[addr] = m.o.get();
		if (m.o->list) {
			const Variant::List &l = v.AsList();
			if (l.size() != m.o->l.size() || v.Size() != l.size())
				return where + fmt(": list has %u elements, expected %u", v.Size(), (unsigned)m.o->l.size());
			for (size_t i = 0; i < l.size(); ++i) {
				string r = check(l[i], m.o->l[i]->v, where + fmt("[%u]", (unsigned)i));
				if (!r.empty()) return r;
			}
		} else {
			const Variant::Map &mm = v.AsMap();
			for (auto &x : m.o->m) {
				auto i = mm.find(x.first);
				if (i == mm.end()) return where + ": key " + vp::quote(x.first) + " is missing";
				string r = check(i->second, x.second->v, where + "/" + vp::quote(x.first));
				if (!r.empty()) return r;
			}
			if (mm.size() != m.o->m.size() || v.Size() != mm.size())
				return where + fmt(": map has %u keys, expected %u", v.Size(), (unsigned)m.o->m.size());
		}
		return "";
	}
	Val got = from_variant(v);
	if (!val_same(got, m.s)) return where + ": is " + val_str(got) + ", expected " + val_str(m.s);
	return "";
}

Variant mv_variant(const MV &v) { return to_variant(mv_val(v)); }

Val core_scalar(vp::Ctx &c) {
	switch (c.weighted({4, 3, 2, 2, 2, 4, 1})) {
	case 0: return Val::integer(c.range(0, 20) - (c.coin() ? 10 : 0));
	case 1: return Val::null();
	case 2: return Val::boolean(c.coin());
	case 3: return Val::uinteger(c.chance(1, 4) ? (1ull << 40) + c.pick(9) : c.pick(50));
	case 4: return Val::real((double)c.range(0, 40) / 4 - 3);
	case 5: {
		static const char *t[] = {"", "s", "text", "a longer text that does not fit into a small string", "0", "1.5", "no"};
		return Val::str(t[c.pick(7)]);
	}
	default: return Val::blob(string(c.pick(5), 'q'));
	}
}

Elem core_elem(vp::Ctx &c, const CellP &at) {
	bool list = at && at->v.islist(), map = at && at->v.ismap();
	if (!list && !map) { list = c.coin(); map = !list; }
	if (c.chance(1, 12)) std::swap(list, map);      // wrong kind of element
	if (map) {
		if (at && at->v.ismap() && !at->v.o->m.empty() && !c.chance(1, 3)) {
			auto i = at->v.o->m.begin();
			std::advance(i, c.pick(at->v.o->m.size()));
			return Elem(i->first);
		}
		return Elem(c.oneof(core_keys));
	}
	if (at && at->v.islist() && !at->v.o->l.empty() && !c.chance(1, 3))
		return Elem((unsigned)c.pick(at->v.o->l.size()));
	unsigned n = at && at->v.islist() ? at->v.o->l.size() : 0;
	switch (c.weighted({6, 4, 1, 1})) {
	case 0: return Elem(n);
	case 1: return Elem((unsigned)c.pick(6));
	case 2: return Elem(n + 1 + (unsigned)c.pick(40));
	default: return Elem(~0u);
	}
}

EPath core_path(vp::Ctx &c, const CellP &root, unsigned avg) {
	EPath p;
	CellP at = root;
	while (at && at->v.o && p.size() < 6 && c.more(avg)) {
		Elem e = core_elem(c, at);
		CellP n = m_child(at, e);
		if (!n) break;
		p.push_back(e);
		at = n;
	}
	return p;
}

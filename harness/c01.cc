// Histories of core operations over aliased variants against the cell model.
#include "core.h"
using namespace libvariant;
using std::string;
using vp::fmt;

const char *vp_rule = "a history of at least 4 operations that changes some variant and in which at least two handles share a container at some point";

static const unsigned NROOT = 4;

namespace {
struct World {
	vp::Ctx &c;
	std::vector<Variant> real;
	std::vector<CellP> model;
	bool shared = false, changed = false;
	unsigned ops = 0;
	uint64_t h = 1;
	World(vp::Ctx &cc) : c(cc), real(NROOT) { for (unsigned i = 0; i < NROOT; ++i) model.push_back(CellP(new Cell)); }

	void verify(const string &what) {
		Same s;
		for (unsigned i = 0; i < NROOT; ++i) {
			string r;
			try { r = s.check(real[i], model[i]->v, fmt("v%u", i)); }
			catch (const std::exception &e) { r = fmt("reading v%u failed: %s", i, e.what()); }
			if (!r.empty()) vp::fail("after " + what + ": " + r);
		}
	}

	struct Loc { unsigned r; EPath p; CellP cell; };
	Loc loc(unsigned avg) {
		Loc l;
		l.r = c.pick(NROOT);
		l.p = core_path(c, model[l.r], avg);
		l.cell = m_lookup(model[l.r], l.p);
		return l;
	}
	string name(const Loc &l) { return fmt("v%u", l.r) + (l.p.empty() ? "" : epath_str(l.p)); }

	// Run fn on the variant at an existing location, reached in one of several ways.
	template<class F> void with(const Loc &l, unsigned style, F fn) {
		if (l.p.empty() && style != 1) { fn(real[l.r]); return; }
		if (style == 2) { VariantRef h = real[l.r].AtPath(to_path(l.p)); fn(h); return; }
		VariantRef h(real[l.r]);
		for (auto &e : l.p) { if (e.key) h.ReassignRef(h[e.k]); else h.ReassignRef(h[e.i]); }
		fn(h);
	}
	template<class F> void with_const(const Loc &l, F fn) {
		const Variant *v = &real[l.r];
		for (auto &e : l.p) v = e.key ? &(*v)[e.k] : &(*v)[e.i];
		fn(*v);
	}

	// A value to store: fresh scalar, fresh container or what another place holds.
	struct Src { int kind = 0; Val v; Loc l; MV mv; bool copy = false; string text; };
	Src src(const std::vector<const MObj*> &into) {
		Src s;
		switch (c.weighted({4, 2, 5})) {
		case 0: s.kind = 0; s.v = core_scalar(c); s.mv = mv_scalar(s.v); s.text = val_str(s.v); break;
		case 1: {
			s.kind = 0;
			s.v = c.coin() ? Val::list() : Val::map();
			unsigned n = c.pick(3);
			for (unsigned i = 0; i < n; ++i) {
				if (s.v.t == Val::List) s.v.l.push_back(core_scalar(c));
				else s.v.m[c.oneof(core_keys)] = core_scalar(c);
			}
			s.mv = mv_from(s.v); s.text = val_str(s.v); break;
		}
		default:
			s.kind = 1; s.l = loc(2);
			s.mv = s.l.cell->v;
			for (auto o : into) if (o && mv_reaches(s.mv, o)) s.copy = true;
			if (s.copy) s.mv = mv_copy(s.mv);
			s.text = name(s.l) + (s.copy ? ".Copy()" : "");
			break;
		}
		return s;
	}
	// fn gets the source either as a plain variant or as an element handle
	template<class F> void with_src(const Src &s, bool handle, F fn) {
		if (s.kind == 0) { Variant v = to_variant(s.v); fn(v); return; }
		with(s.l, handle ? 1 : 0, [&](Variant &x) {
			if (s.copy) { Variant y = x.Copy(); fn(y); }
			else if (handle) { fn(x); }
			else { Variant y = x; fn(y); }
		});
	}

	// Run the real operation; it must succeed exactly when expected.
	template<class F> void attempt(const string &what, bool ok, F fn) {
		c.note("%s%s", what.c_str(), ok ? "" : "   (rejected)");
		bool threw = false;
		string msg;
		try { fn(); }
		catch (const std::exception &e) { threw = true; msg = e.what(); }
		if (ok && threw) vp::fail(what + " failed: " + msg);
		if (!ok && !threw) vp::fail(what + " should be rejected but succeeded");
	}

	const MObj *objof(const CellP &x) { return x->v.o.get(); }
	std::vector<const MObj*> objs_on(const Loc &l, const EPath &sub) {
		std::vector<const MObj*> v;
		CellP at = model[l.r];
		v.push_back(objof(at));
		for (auto &e : l.p) { at = m_child(at, e); v.push_back(objof(at)); }
		for (auto &e : sub) { if (!at) break; at = m_child(at, e); if (at) v.push_back(objof(at)); }
		return v;
	}

	void step();
	void reads();
};

void World::reads() {
	Loc l = loc(2);
	string n = name(l);
	MV m = l.cell->v;
	Elem e = core_elem(c, l.cell);
	CellP kid = m_child(l.cell, e);
	string en = e.key ? "(" + vp::quote(e.k) + ")" : fmt("(%u)", e.i);
	bool conts = m.o || m.isnull() || m.s.t == Val::Str;
	unsigned msize = m.o ? (m.o->list ? m.o->l.size() : m.o->m.size()) : m.s.t == Val::Str || m.s.t == Val::Blob ? m.s.s.size() : 0;
	unsigned style = c.pick(3);
	auto sub = [&](Variant &v) { return e.key ? v[e.k] : v[e.i]; };
	bool indexable = m.isnull() || (e.key ? m.ismap() : m.islist());
	switch (c.pick(10)) {
	case 0:
		attempt(n + ".Size()", conts || m.s.t == Val::Blob, [&] { with(l, style, [&](Variant &v) {
			unsigned g = v.Size(); VP_CHECK(g == msize, "%s.Size() is %u, expected %u", n.c_str(), g, msize); }); });
		break;
	case 1:
		attempt(n + ".Empty()", conts, [&] { with(l, style, [&](Variant &v) {
			VP_CHECK(v.Empty() == (msize == 0), "%s.Empty() is wrong for size %u", n.c_str(), msize); }); });
		break;
	case 2:
		attempt(n + ".Get" + en, !!kid, [&] { with(l, style, [&](Variant &v) {
			Variant g = e.key ? v.Get(e.k) : v.Get(e.i);
			Same s; string r = s.check(g, kid ? kid->v : MV(), "value");
			if (!r.empty()) vp::fail(n + ".Get" + en + " " + r); }); });
		break;
	case 3:
		attempt(n + ".Get" + en + " with a default", true, [&] { with(l, style, [&](Variant &v) {
			Variant d = "default";
			Variant g = e.key ? v.Get(e.k, d) : v.Get(e.i, d);
			Same s; string r = s.check(g, kid ? kid->v : mv_scalar(Val::str("default")), "value");
			if (!r.empty()) vp::fail(n + ".Get" + en + " with a default: " + r); }); });
		break;
	case 4:
		if (!indexable) break;
		attempt(n + ".Contains" + en, true, [&] { with(l, style, [&](Variant &v) {
			bool g = e.key ? v.Contains(e.k) : v.Contains(e.i);
			VP_CHECK(g == !!kid, "%s.Contains%s is %d", n.c_str(), en.c_str(), g); }); });
		break;
	case 5:
		attempt("const " + n + en, !!kid, [&] { with_const(l, [&](const Variant &v) {
			const Variant &g = e.key ? v.At(e.k) : v.At(e.i);
			Same s; string r = s.check(g, kid ? kid->v : MV(), "value");
			if (!r.empty()) vp::fail("const " + n + en + ": " + r); }); });
		break;
	case 6:
		attempt(n + en + ".Exists()", indexable, [&] { with(l, style, [&](Variant &v) {
			VariantRef h = sub(v);
			VP_CHECK(h.Exists() == !!kid, "%s%s.Exists() is %d", n.c_str(), en.c_str(), h.Exists()); }); });
		break;
	case 7: {
		Val want = core_scalar(c);
		if (!m.islist()) { attempt(n + ".Index", false, [&] { with(l, style, [&](Variant &v) { v.Index(to_variant(want)); }); }); break; }
		if (!m.o->l.empty() && c.coin()) want = mv_val(m.o->l[c.pick(m.o->l.size())]->v);
		unsigned at = 0;
		while (at < m.o->l.size() && !val_equal(mv_val(m.o->l[at]->v), want)) ++at;
		attempt(n + ".Index(" + val_str(want) + ")", true, [&] { with(l, style, [&](Variant &v) {
			unsigned g = v.Index(to_variant(want));
			VP_CHECK(g == at, "%s.Index(%s) is %u, expected %u", n.c_str(), val_str(want).c_str(), g, at); }); });
		break;
	}
	case 8: {
		attempt("type queries of " + n, true, [&] { with(l, style, [&](Variant &v) {
			Val::T t = m.s.t;
			bool g = v.IsNull() == (t == Val::Null) && v.IsBool() == (t == Val::Bool)
				&& v.IsTrue() == (t == Val::Bool && m.s.b) && v.IsFalse() == (t == Val::Bool && !m.s.b)
				&& v.IsInt() == (t == Val::Int) && v.IsUnsigned() == (t == Val::UInt) && v.IsFloat() == (t == Val::Float)
				&& v.IsNumber() == (t == Val::Int || t == Val::UInt || t == Val::Float)
				&& v.IsString() == (t == Val::Str) && v.IsList() == (t == Val::List) && v.IsMap() == (t == Val::Map)
				&& v.IsBlob() == (t == Val::Blob) && v.Exists();
			VP_CHECK(g, "type queries of %s disagree with its type", n.c_str()); }); });
		break;
	}
	default:
		attempt("iterate " + n + " as const", m.o != nullptr, [&] { with_const(l, [&](const Variant &v) {
			unsigned k = 0;
			if (!m.o) { if (c.coin()) v.ListBegin(); else v.MapBegin(); return; }
			if (m.o->list) for (auto i = v.ListBegin(); i != v.ListEnd(); ++i) ++k;
			else for (auto i = v.MapBegin(); i != v.MapEnd(); ++i) { VP_CHECK(m.o->m.count(i->first), "unexpected key"); ++k; }
			VP_CHECK(k == msize, "iteration over %s visits %u elements, expected %u", n.c_str(), k, msize); }); });
	}
}

void World::step() {
	++ops;
	unsigned what = c.weighted({6, 5, 8, 4, 4, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 8});
	h = vp::hashmix(h, what);
	switch (what) {
	case 0: {                                   // v = scalar, of every assignable type
		Loc l = loc(1);
		unsigned style = c.pick(3), ty = c.pick(13);
		int64_t k = c.range(0, 30) - 10;
		Val nv;
		Variant::Type_t types[] = {Variant::NullType, Variant::BoolType, Variant::IntegerType, Variant::UnsignedType,
			Variant::FloatType, Variant::StringType, Variant::ListType, Variant::MapType, Variant::BlobType};
		MV m;
		unsigned sub = c.pick(9);
		switch (ty) {
		case 0: m = mv_scalar(Val::integer(k)); break;
		case 1: case 2: m = mv_scalar(Val::integer(k)); break;
		case 3: case 4: case 5: m = mv_scalar(Val::uinteger((uint64_t)(k + 10))); break;
		case 6: case 7: m = mv_scalar(Val::real(k * 0.5)); break;
		case 8: m = mv_scalar(Val::boolean(k > 0)); break;
		case 9: case 10: m = mv_scalar(Val::str(ty == 9 ? string((size_t)(k + 10), 'z') : "lit")); break;
		case 11:
			switch (sub) {
			case 0: m = MV(); break;
			case 1: m = mv_scalar(Val::boolean(false)); break;
			case 2: m = mv_scalar(Val::integer(0)); break;
			case 3: m = mv_scalar(Val::uinteger(0)); break;
			case 4: m = mv_scalar(Val::real(0)); break;
			case 5: m = mv_scalar(Val::str("")); break;
			case 6: m = mv_list(); break;
			case 7: m = mv_map(); break;
			default: m = mv_scalar(Val::blob("")); break;
			}
			break;
		default: {
			m = sub % 2 ? mv_list() : mv_map();
			for (unsigned i = 0; i < sub / 2; ++i) {
				CellP x(new Cell); x->v = mv_scalar(Val::integer(k + i));
				if (m.o->list) m.o->l.push_back(x); else m.o->m[core_keys[i]] = x;
			}
		}
		}
		attempt(name(l) + " = " + val_str(mv_val(m)) + fmt(" (type %u)", ty), true, [&] { with(l, style, [&](Variant &v) {
			// handles have their own assignment operators
			switch (ty) {
			case 0: v = (int)k; break;
			case 1: v = (long)k; break;
			case 2: v = (long long)k; break;
			case 3: v = (unsigned)(k + 10); break;
			case 4: v = (unsigned long)(k + 10); break;
			case 5: v = (unsigned long long)(k + 10); break;
			case 6: v = k * 0.5; break;
			case 7: v = (long double)(k * 0.5); break;
			case 8: v = (k > 0); break;
			case 9: v = string((size_t)(k + 10), 'z'); break;
			case 10: v = "lit"; break;
			case 11: v = types[sub]; break;
			default:
				if (m.o->list) { std::vector<int> x; for (unsigned i = 0; i < sub / 2; ++i) x.push_back(k + i); v = x; }
				else { std::map<string, int> x; for (unsigned i = 0; i < sub / 2; ++i) x[core_keys[i]] = k + i; v = x; }
			}
		}); });
		l.cell->v = m;
		changed = true;
		break;
	}
	case 1: {                                   // v = other place
		Loc l = loc(1);
		Src s = src(l.p.empty() ? std::vector<const MObj*>() : objs_on(Loc{l.r, EPath(l.p.begin(), l.p.end() - 1), l.cell}, EPath()));
		unsigned style = c.pick(3);
		bool handle = c.coin();
		attempt(name(l) + " = " + s.text, true, [&] { with_src(s, handle, [&](Variant &x) { with(l, style, [&](Variant &v) { v = x; }); }); });
		l.cell->v = s.mv;
		if (s.mv.o && s.kind) shared = true;
		changed = true;
		break;
	}
	case 2: {                                   // element write, one or more new levels
		Loc l = loc(2);
		EPath sub;
		CellP at = l.cell;
		do { Elem e = core_elem(c, at); sub.push_back(e); at = at ? m_child(at, e) : CellP(); } while (sub.size() < 4 && c.chance(1, 3));
		Src s = src(objs_on(l, sub));
		bool ok = m_writable(l.cell, sub);
		unsigned style = c.pick(3), way = c.pick(4);
		bool handle = c.coin();
		if (sub.size() > 1 && way == 1) way = 0;
		string t = name(l) + epath_str(sub) + (way == 0 ? " = " : way == 1 ? " Set " : way == 2 ? " SetPath " : " AtPath = ") + s.text;
		attempt(t, ok, [&] { with_src(s, handle, [&](Variant &x) { with(l, style, [&](Variant &v) {
			if (way == 1) { if (sub[0].key) v.Set(sub[0].k, x); else v.Set(sub[0].i, x); }
			else if (way == 2) v.SetPath(to_path(sub), x);
			else if (way == 3) v.AtPath(to_path(sub)) = x;
			else {
				VariantRef h = sub[0].key ? v[sub[0].k] : v[sub[0].i];
				for (size_t i = 1; i < sub.size(); ++i) { if (sub[i].key) h.ReassignRef(h[sub[i].k]); else h.ReassignRef(h[sub[i].i]); }
				h = x;
			}
		}); }); });
		if (ok) { m_create(l.cell, sub)->v = s.mv; changed = true; if (s.kind && s.mv.o) shared = true; }
		break;
	}
	case 3: {                                   // Append
		Loc l = loc(2);
		Src s = src(objs_on(l, EPath()));
		bool ok = l.cell->v.isnull() || l.cell->v.islist(), handle = c.coin();
		unsigned style = c.pick(3), way = c.pick(2);
		attempt(name(l) + ".Append(" + s.text + ")", ok, [&] { with_src(s, handle, [&](Variant &x) { with(l, style, [&](Variant &v) {
			if (way) { Variant y = x; v.AsList().push_back(y); } else v.Append(x); }); }); });
		if (ok) {
			if (l.cell->v.isnull()) l.cell->v = mv_list();
			CellP n(new Cell); n->v = s.mv;
			l.cell->v.o->l.push_back(n);
			changed = true;
			if (s.kind && s.mv.o) shared = true;
		}
		break;
	}
	case 4: {                                   // At with default
		Loc l = loc(2);
		EPath sub(1, core_elem(c, l.cell));
		bool path = c.chance(1, 3);
		if (path && c.coin()) { CellP k = m_child(l.cell, sub[0]); sub.push_back(core_elem(c, k ? k : l.cell)); }
		Src s = src(objs_on(l, sub));
		CellP kid = m_lookup(l.cell, sub);
		bool ok = kid || m_writable(l.cell, sub);
		unsigned style = c.pick(3);
		attempt(name(l) + epath_str(sub) + " At(default " + s.text + ")", ok, [&] { with_src(s, false, [&](Variant &x) { with(l, style, [&](Variant &v) {
			VariantRef h = path ? v.AtPath(to_path(sub), x) : sub[0].key ? v.At(sub[0].k, x) : v.At(sub[0].i, x);
			Same q; string r = q.check(h, kid ? kid->v : s.mv, "result");
			if (!r.empty()) vp::fail("At with a default: " + r);
		}); }); });
		if (ok && !kid) { m_create(l.cell, sub)->v = s.mv; changed = true; if (s.kind && s.mv.o) shared = true; }
		break;
	}
	case 5: {                                   // Erase
		Loc l = loc(2);
		Elem e = core_elem(c, l.cell);
		bool ok = l.cell->v.isnull() || (e.key ? l.cell->v.ismap() : l.cell->v.islist());
		unsigned style = c.pick(3);
		auto run = [&] { with(l, style, [&](Variant &v) { if (e.key) v.Erase(e.k); else v.Erase(e.i); }); };
		string t = name(l) + ".Erase" + epath_str(EPath(1, e));
		if (!e.key && e.i == ~0u && ok) { c.note("%s", t.c_str()); try { run(); } catch (const std::exception &) {} break; }
		attempt(t, ok, run);
		if (!ok || l.cell->v.isnull()) break;
		changed = true;
		if (e.key) l.cell->v.o->m.erase(e.k);
		else {
			std::vector<CellP> &x = l.cell->v.o->l;
			if (e.i + 1 < x.size()) x[e.i]->v = MV();
			else if (e.i + 1 == x.size()) x.pop_back();
		}
		break;
	}
	case 6: {                                   // Clear
		Loc l = loc(1);
		unsigned style = c.pick(3);
		attempt(name(l) + ".Clear()", true, [&] { with(l, style, [&](Variant &v) { v.Clear(); }); });
		changed = true;
		if (l.cell->v.o) { std::shared_ptr<MObj> keep = l.cell->v.o; keep->l.clear(); keep->m.clear(); }
		else if (l.cell->v.s.t == Val::Str) l.cell->v.s.s.clear();
		else l.cell->v = MV();
		break;
	}
	case 7: {                                   // direct use of the list
		Loc l = loc(2);
		bool ok = l.cell->v.isnull() || l.cell->v.islist();
		Src s = src(objs_on(l, EPath()));
		unsigned style = c.pick(3), way = c.pick(4);
		size_t n = l.cell->v.islist() ? l.cell->v.o->l.size() : 0;
		size_t pos = c.pick(n + 1);
		if (n == 0 && way) way = 0;
		if (way && pos == n) pos = n - 1;
		static const char *names[] = {"insert", "erase", "pop_back", "assign through iterator"};
		attempt(name(l) + fmt(".AsList() %s %u ", names[way], (unsigned)pos) + s.text, ok, [&] { with_src(s, false, [&](Variant &x) { with(l, style, [&](Variant &v) {
			Variant::List &li = v.AsList();
			if (way == 0) li.insert(li.begin() + pos, x);
			else if (way == 1) li.erase(li.begin() + pos);
			else if (way == 2) li.pop_back();
			else *(v.ListBegin() + pos) = x;
		}); }); });
		if (!ok) break;
		changed = true;
		if (l.cell->v.isnull()) l.cell->v = mv_list();
		std::vector<CellP> &x = l.cell->v.o->l;
		CellP nc(new Cell); nc->v = s.mv;
		if (way == 0) x.insert(x.begin() + pos, nc);
		else if (way == 1) { CellP k = x[pos]; x.erase(x.begin() + pos); }
		else if (way == 2) { CellP k = x.back(); x.pop_back(); }
		else x[pos]->v = s.mv;
		break;
	}
	case 8: {                                   // direct use of the map
		Loc l = loc(2);
		bool ok = l.cell->v.isnull() || l.cell->v.ismap();
		Src s = src(objs_on(l, EPath()));
		string k = c.oneof(core_keys);
		unsigned style = c.pick(3), way = c.pick(3);
		attempt(name(l) + fmt(".AsMap() way %u ", way) + vp::quote(k) + " " + s.text, ok, [&] { with_src(s, false, [&](Variant &x) { with(l, style, [&](Variant &v) {
			Variant::Map &m = v.AsMap();
			if (way == 0) m[k] = x;
			else if (way == 1) m.erase(k);
			else for (auto i = v.MapBegin(); i != v.MapEnd(); ++i) if (i->first == k) i->second = x;
		}); }); });
		if (!ok) break;
		changed = true;
		if (l.cell->v.isnull()) l.cell->v = mv_map();
		std::map<string, CellP> &m = l.cell->v.o->m;
		if (way == 0) { if (!m[k]) m[k].reset(new Cell); m[k]->v = s.mv; }
		else if (way == 1) m.erase(k);
		else if (m.count(k)) m[k]->v = s.mv;
		break;
	}
	case 9: {                                   // Merge
		Loc l = loc(1), o = loc(1);
		MV ov = o.cell->v;
		bool ok = ov.isnull() || (ov.ismap() && (ov.o->m.empty() || l.cell->v.isnull() || l.cell->v.ismap()));
		bool cyc = false;
		if (ok && ov.ismap()) {
			for (auto x : objs_on(l, EPath())) for (auto &kv : ov.o->m) if (x && mv_reaches(kv.second->v, x)) cyc = true;
		}
		if (ok && ov.ismap()) for (auto &kv : ov.o->m) if (kv.second == l.cell) cyc = true;
		if (cyc) break;
		unsigned style = c.pick(3);
		attempt(name(l) + ".Merge(" + name(o) + ")", ok, [&] { with(o, 0, [&](Variant &x) { with(l, style, [&](Variant &v) { v.Merge(x); }); }); });
		if (ok && ov.ismap() && !ov.o->m.empty()) {
			changed = true;
			if (l.cell->v.isnull()) l.cell->v = mv_map();
			std::map<string, MV> vals;
			for (auto &kv : ov.o->m) { vals[kv.first] = kv.second->v; if (kv.second->v.o) shared = true; }
			for (auto &kv : vals) { CellP &x = l.cell->v.o->m[kv.first]; if (!x) x.reset(new Cell); x->v = kv.second; }
		}
		break;
	}
	case 10: {                                  // ErasePath
		Loc l = loc(0);
		EPath sub = core_path(c, l.cell, 3);
		CellP at = m_lookup(l.cell, sub);
		sub.push_back(core_elem(c, at));
		if (!sub.back().key && sub.back().i == ~0u) break;
		// an element inside a scalar cannot be erased
		bool ok = at->v.isnull() || (sub.back().key ? at->v.ismap() : at->v.islist());
		unsigned style = c.pick(3);
		attempt(name(l) + ".ErasePath(" + epath_str(sub) + ")", ok, [&] { with(l, style, [&](Variant &v) { v.ErasePath(to_path(sub)); }); });
		if (ok && at->v.o) {
			changed = true;
			if (sub.back().key) at->v.o->m.erase(sub.back().k);
			else {
				std::vector<CellP> &x = at->v.o->l;
				if (sub.back().i + 1 < x.size()) x[sub.back().i]->v = MV();
				else if (sub.back().i + 1 == x.size()) x.pop_back();
			}
		}
		break;
	}
	case 11: {                                  // ++ -- +=
		Loc l = loc(2);
		Val::T t = l.cell->v.s.t;
		bool ok = t == Val::Int || t == Val::UInt || t == Val::Float;
		unsigned way = c.pick(3), style = c.pick(3);
		const Val &old = l.cell->v.s;
		// overflow and inexact sums are another property's business
		if (t == Val::Int && (old.i > 1000000 || old.i < -1000000)) break;
		if (t == Val::Float && !(old.d * 8 == (double)(int64_t)(old.d * 8) && old.d < 1e9 && old.d > -1e9)) break;
		if (t == Val::UInt && old.u > 1ull << 60) break;
		if (t == Val::UInt && way == 1 && l.cell->v.s.u == 0) way = 0;
		attempt(name(l) + (way == 0 ? "++" : way == 1 ? "--" : " += 2"), ok, [&] { with(l, style, [&](Variant &v) {
			if (way == 0) ++v; else if (way == 1) --v; else v += Variant(2); }); });
		if (ok) {
			int d = way == 0 ? 1 : way == 1 ? -1 : 2;
			Val &x = l.cell->v.s;
			if (t == Val::Int) x.i += d; else if (t == Val::UInt) x.u += d; else x.d += d;
			changed = true;
		}
		break;
	}
	case 12: {                                  // a handle goes away, a new one appears
		unsigned i = c.pick(NROOT);
		c.note("drop v%u", i);
		{ Variant old = real[i]; real[i] = Variant(); }
		model[i]->v = MV();
		break;
	}
	case 13: {                                  // exchange two handles by copying
		unsigned i = c.pick(NROOT), j = c.pick(NROOT);
		c.note("swap v%u v%u", i, j);
		{ Variant t(real[i]); real[i] = real[j]; real[j] = t; }
		MV t = model[i]->v; model[i]->v = model[j]->v; model[j]->v = t;
		break;
	}
	case 14: {                                  // Resolve with default
		Loc l = loc(1);
		Elem e = core_elem(c, l.cell);
		bool ok = m_writable(l.cell, EPath(1, e));
		if (e.key ? !(l.cell->v.isnull() || l.cell->v.ismap()) : !(l.cell->v.isnull() || l.cell->v.islist())) ok = false;
		CellP kid = m_child(l.cell, e);
		Val d = core_scalar(c);
		unsigned style = c.pick(3);
		attempt(name(l) + epath_str(EPath(1, e)) + ".Resolve(" + val_str(d) + ")", ok, [&] { with(l, style, [&](Variant &v) {
			VariantRef h = e.key ? v[e.k] : v[e.i]; h.Resolve(to_variant(d)); }); });
		if (ok && (!kid || kid->v.isnull())) { m_create(l.cell, EPath(1, e))->v = mv_scalar(d); changed = true; }
		break;
	}
	default: reads(); break;
	}
}
}

void vp_case(vp::Ctx &c) {
	World w(c);
	unsigned max = c.thorough ? 60 : 30;
	// start from a document so that histories do not begin with empty handles
	GenOpt o; o.simple_keys = true; o.maxdepth = 3; o.longstr = false; o.big = false; o.text = TK_ASCII;
	Val start = gen_val(c, o);
	w.real[0] = to_variant(start);
	w.model[0]->v = mv_from(start);
	c.note("v0 starts as %s", val_str(start).c_str());
	w.verify("the start");
	while (w.ops < max && c.more(14)) {
		w.step();
		w.verify(fmt("operation %u", w.ops));
		c.evals(1);
	}
	if (w.ops >= 4 && w.changed && w.shared) c.nontrivial(vp::hashmix(w.h, val_hash(mv_val(w.model[0]->v))));
}

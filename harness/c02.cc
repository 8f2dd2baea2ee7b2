// Element handles kept over histories of container modifications.
#include "core.h"
using namespace libvariant;
using std::string;
using vp::fmt;

const char *vp_rule = "a history in which a stored handle is used after the container it came from was modified, or is written while its element is missing";

static const unsigned NROOT = 3;

namespace {
struct H {
	std::unique_ptr<VariantRef> real;
	std::weak_ptr<Cell> base;      // where the lookup started
	EPath path;                    // what it names below base
	std::weak_ptr<Cell> bound;     // the element it was seen to denote
	std::weak_ptr<Cell> obase;     // the name it was taken by
	EPath opath;
	bool isbound = false, shaky = false, aged = false;
};

struct World {
	vp::Ctx &c;
	std::vector<std::unique_ptr<Variant>> real;
	std::vector<CellP> model;
	std::vector<H> hs;
	unsigned ops = 0;
	uint64_t hash = 1;
	bool good = false;
	World(vp::Ctx &cc) : c(cc) {
		for (unsigned i = 0; i < NROOT; ++i) { real.emplace_back(new Variant); model.emplace_back(new Cell); }
	}
	void verify(const string &what) {
		Same s;
		for (unsigned i = 0; i < NROOT; ++i) {
			string r;
			try { r = s.check(*real[i], model[i]->v, fmt("v%u", i)); }
			catch (const std::exception &e) { r = fmt("reading v%u failed: %s", i, e.what()); }
			if (!r.empty()) vp::fail("after " + what + ": " + r);
		}
	}
	// a list got longer: handles to its elements may become invalid
	void grew(const MObj *o) {
		if (!o || !o->list) return;
		for (auto &h : hs) {
			CellP a = h.base.lock(), b = h.bound.lock(), d = h.obase.lock();
			for (auto &x : o->l) if (x == a || x == b || x == d) h.shaky = true;
		}
	}
	void age() { for (auto &h : hs) h.aged = true; }
	CellP create(const CellP &at, const EPath &p) {
		CellP x = at;
		for (size_t i = 0; i < p.size() && x; ++i) {
			if (!p[i].key && x->v.islist() && p[i].i >= x->v.o->l.size()) grew(x->v.o.get());
			x = m_child(x, p[i]);
		}
		return m_create(at, p);
	}
	// What may happen when handle h is used?
	enum State { Dead, Split, Missing, Present };
	State state(H &h, CellP &cell, CellP &base) {
		base = h.base.lock();
		if (h.isbound) {
			CellP b = h.bound.lock();
			if (!b) return Dead;
			// whether a handle keeps to its name or to the element is left open
			CellP ob = h.obase.lock(), now = ob ? m_lookup(ob, h.opath) : CellP();
			if (now != b) return Split;
			cell = b;
			return Present;
		}
		if (!base) return Dead;
		cell = m_lookup(base, h.path);
		return cell ? Present : Missing;
	}
	string name(size_t i) { return fmt("h%u", (unsigned)i); }

	void take();
	void use_read(size_t i);
	void use_write(size_t i);
	void modify();
	void step();
};

void World::take() {
	H h;
	string t;
	if (!hs.empty() && c.chance(1, 3)) {              // from another handle
		size_t i = c.pick(hs.size());
		CellP cell, base;
		State st = state(hs[i], cell, base);
		if (st == Dead || st == Split) return;
		unsigned way = c.pick(4);
		h.shaky = hs[i].shaky;
		if (way == 0) {
			t = "copy of " + name(i);
			h.obase = hs[i].obase; h.opath = hs[i].opath;
			h.base = hs[i].base; h.path = hs[i].path; h.bound = hs[i].bound; h.isbound = hs[i].isbound;
			c.note("h%u = %s", (unsigned)hs.size(), t.c_str());
			try { h.real.reset(new VariantRef(*hs[i].real)); }
			catch (const InvalidReferenceError &) { if (hs[i].shaky) return; throw; }
		} else if (way == 3) {                        // several steps at once
			EPath p;
			CellP at = cell;
			do { p.push_back(core_elem(c, at)); at = at ? m_child(at, p.back()) : CellP(); } while (p.size() < 3 && c.coin());
			t = name(i) + ".AtPath " + epath_str(p);
			c.note("h%u = %s", (unsigned)hs.size(), t.c_str());
			try { h.real.reset(new VariantRef(hs[i].real->AtPath(to_path(p)))); }
			catch (const std::exception &ex) {
				if (!hs[i].shaky) vp::fail("taking " + t + " failed: " + ex.what());
				if (st == Present) { hs[i].bound = cell; hs[i].isbound = true; }
				return;
			}
			if (st == Missing) { h.base = base; h.path = hs[i].path; h.path.insert(h.path.end(), p.begin(), p.end()); }
			else {
				hs[i].bound = cell; hs[i].isbound = true;
				CellP x = cell;
				size_t n = 0;
				while (n < p.size() && m_child(x, p[n])) x = m_child(x, p[n++]);
				h.base = x;
				h.path.assign(p.begin() + n, p.end());
				if (h.path.empty()) { h.bound = x; h.isbound = true; }
			}
		} else {
			Elem e = core_elem(c, cell);
			bool ok = st == Missing || cell->v.isnull() || (e.key ? cell->v.ismap() : cell->v.islist());
			t = name(i) + epath_str(EPath(1, e));
			c.note("h%u = %s%s", (unsigned)hs.size(), t.c_str(), ok ? "" : "   (rejected)");
			try {
				if (way == 1) h.real.reset(new VariantRef(e.key ? (*hs[i].real)[e.k] : (*hs[i].real)[e.i]));
				else h.real.reset(new VariantRef(e.key ? hs[i].real->At(e.k) : hs[i].real->At(e.i)));
				VP_CHECK(ok, "taking %s should be rejected", t.c_str());
			} catch (const std::exception &ex) {
				if (ok && !hs[i].shaky) vp::fail("taking " + t + " failed: " + ex.what());
				if (st == Present) { hs[i].bound = cell; hs[i].isbound = true; }
				return;
			}
			if (st == Missing) { h.base = base; h.path = hs[i].path; h.path.push_back(e); }
			else {
				// binding the parent is allowed
				hs[i].bound = cell; hs[i].isbound = true;
				h.base = cell; h.path.push_back(e);
				CellP k = m_child(cell, e);
				if (k) { h.bound = k; h.isbound = true; h.base = k; h.path.clear(); }
			}
		}
	} else {
		unsigned r = c.pick(NROOT);
		EPath p = core_path(c, model[r], 2);
		CellP at = m_lookup(model[r], p);
		unsigned way = c.pick(3);
		if (way != 2) {
			Elem e = core_elem(c, at);
			p.push_back(e);
			if (c.chance(1, 4)) { CellP k = m_child(at, e); p.push_back(core_elem(c, k)); }
		}
		t = fmt("v%u", r) + epath_str(p);
		// step by step lookup of an element inside a scalar is refused at once
		bool ok = true;
		{
			CellP x = model[r];
			for (auto &e : p) {
				if (!x) break;
				if (!x->v.isnull() && (e.key ? !x->v.ismap() : !x->v.islist())) ok = false;
				if (!ok) break;
				x = m_child(x, e);
			}
		}
		c.note("h%u = %s (way %u)%s", (unsigned)hs.size(), t.c_str(), way, ok || way == 1 ? "" : "   (rejected)");
		try {
			if (way == 1) h.real.reset(new VariantRef(real[r]->AtPath(to_path(p))));
			else {
				h.real.reset(new VariantRef(*real[r]));
				for (auto &e : p) { if (e.key) h.real->ReassignRef((*h.real)[e.k]); else h.real->ReassignRef((*h.real)[e.i]); }
				VP_CHECK(ok, "taking %s should be rejected", t.c_str());
			}
		} catch (const std::exception &ex) {
			if (ok || way == 1) vp::fail("taking " + t + " failed: " + ex.what());
			return;
		}
		CellP x = model[r];
		size_t n = 0;
		while (n < p.size() && m_child(x, p[n])) x = m_child(x, p[n++]);
		h.base = x;
		h.path.assign(p.begin() + n, p.end());
		if (h.path.empty()) { h.bound = x; h.isbound = true; }
	}
	if (h.obase.expired()) { h.obase = h.base; h.opath = h.path; }
	hs.push_back(std::move(h));
}

void World::use_read(size_t i) {
	H &h = hs[i];
	CellP cell, base;
	State st = state(h, cell, base);
	string n = name(i);
	unsigned way = c.pick(14);
	static const char *ways[] = {"read", "Exists", "GetType", "Size", "copy", "Copy()", "compare", "AsString", "Contains", "Get", "GetPath", "number", "Empty", "HasPath"};
	Elem el = way >= 8 ? core_elem(c, cell) : Elem(0u);
	c.note("%s %s%s", n.c_str(), ways[way], st == Missing ? "   (missing)" : st == Dead ? "   (element gone)" : "");
	if (h.aged) good = true;
	VariantRef &r = *h.real;
	if (st == Split) { hs.erase(hs.begin() + i); return; }
	if (way == 1) {
		bool e = r.Exists();
		if (st == Present && !h.shaky) VP_CHECK(e, "%s names an existing element but does not exist", n.c_str());
		if (st == Missing) VP_CHECK(!e, "%s names a missing element but exists", n.c_str());
		return;
	}
	bool threw = false, invalid = false;
	string msg, diff;
	try {
		const VariantRef &cr = r;
		Same s;
		MV want = cell ? cell->v : MV();
		switch (way) {
		case 0: if (st == Present) diff = s.check(cr, want, n); else from_variant(cr); break;
		case 2: { Variant::Type_t t = cr.GetType(); (void)t; if (st == Present) diff = s.check(cr, want, n); break; }
		case 3: {
			if (st == Present && !want.o) { cr.IsNull(); diff = s.check(cr, want, n); break; }
			unsigned z = cr.Size();
			if (st == Present && z != (want.o->list ? want.o->l.size() : want.o->m.size())) diff = n + ".Size() is wrong";
			break;
		}
		case 4: { Variant v = r; if (st == Present) diff = s.check(v, want, n); break; }
		case 5: { Variant v = cr.Copy(); if (st == Present) diff = s.check(v, mv_copy(want), n); break; }
		case 6: { bool eq = cr == mv_variant(want); if (st == Present && !eq) diff = n + " does not compare equal to its value"; break; }
		case 8: case 9: case 10: case 13: {
			bool fits = el.key ? want.ismap() : want.islist();
			if (st == Present && !fits) { diff = s.check(cr, want, n); break; }
			CellP k = st == Present ? m_child(cell, el) : CellP();
			if (way == 8 || way == 13) {
				bool has = way == 13 ? cr.HasPath(to_path(EPath(1, el))) : el.key ? cr.Contains(el.k) : cr.Contains(el.i);
				if (st == Missing && !has) throw std::runtime_error("nothing there");
				if (st == Present && has != !!k) diff = n + fmt(": %s is wrong about ", ways[way]) + epath_str(EPath(1, el));
				break;
			}
			Variant d("default"), g = way == 10 ? cr.GetPath(to_path(EPath(1, el)), d) : el.key ? cr.Get(el.k, d) : cr.Get(el.i, d);
			if (st == Missing && g.IsString() && g.AsString() == "default") throw std::runtime_error("nothing there");
			if (st == Present) diff = s.check(g, k ? k->v : mv_scalar(Val::str("default")), n + epath_str(EPath(1, el)));
			break;
		}
		case 11:
			if (st == Present && (want.o || want.s.t != Val::Int)) { diff = s.check(cr, want, n); break; }
			{ int64_t x = c.coin() ? cr.AsInt() : -(-cr).AsInt(); if (st == Present && x != want.s.i) diff = n + ".AsInt() is wrong"; }
			break;
		case 12:
			if (st == Present && !want.o) { diff = s.check(cr, want, n); break; }
			{ bool x = cr.Empty(); if (st == Present && x != (want.o->list ? want.o->l.empty() : want.o->m.empty())) diff = n + ".Empty() is wrong"; }
			break;
		default:
			if (st == Present && (want.o || want.s.t == Val::Blob)) { diff = s.check(cr, want, n); break; }
			{ string x = cr.AsString(); if (st == Present && want.s.t == Val::Str && x != want.s.s) diff = n + ".AsString() is wrong"; }
		}
	} catch (const InvalidReferenceError &e) { threw = invalid = true; msg = e.what(); }
	catch (const std::exception &e) { threw = true; msg = e.what(); }
	if (st == Present) {
		if (invalid && h.shaky) { hs.erase(hs.begin() + i); return; }
		if (threw) vp::fail("reading " + n + " failed: " + msg);
		if (!diff.empty()) vp::fail("reading a handle: " + diff);
		h.bound = cell; h.isbound = true; h.base = cell; h.path.clear();
	} else if (st == Missing) {
		if (!threw) vp::fail(n + fmt(": reading (%s) a handle to a missing element did not fail", ways[way]));
	} else if (!threw) {
		hs.erase(hs.begin() + i);     // kept alive elsewhere: memory safety is all that is required
	}
}

void World::use_write(size_t i) {
	H &h = hs[i];
	CellP cell, base;
	State st = state(h, cell, base);
	string n = name(i);
	if (st == Split) { hs.erase(hs.begin() + i); return; }
	if (h.aged || st == Missing) good = true;
	unsigned way = c.weighted({5, 3, 3, 2, 2, 2, 2, 2, 1, 2, 2});
	if (st == Dead) way = 0;
	unsigned arith = way == 9 ? c.pick(6) : 0;
	static const char *const ar[] = {" -= 2", " += 2", " *= 2", " /= 1", " %= 7", "--"};
	EPath more;
	Elem e = core_elem(c, cell);
	if (!e.key && e.i == ~0u) e.i = 2;
	Val sv = core_scalar(c);
	MV val = mv_scalar(sv);
	Variant rv = to_variant(sv);
	string text = val_str(sv);
	MV cur = cell ? cell->v : MV();
	CellP b = st == Present ? cell : base;
	EPath p = st == Present ? EPath() : h.path;
	if ((way <= 2 || way == 10) && c.chance(1, 3)) {                 // store a root's value
		unsigned r = c.pick(NROOT);
		bool sf = true;
		if (model[r]->v.o) for (auto &x : model) if (x->v.o && mv_reaches(model[r]->v, x->v.o.get())) sf = false;
		val = model[r]->v;
		rv = *real[r];
		if (!sf) { val = mv_copy(val); rv = rv.Copy(); }
		text = fmt("v%u", r) + (sf ? "" : ".Copy()");
	}
	// overflow and inexact sums are another property's business
	if (way == 5 && ((cur.s.t == Val::Int && (cur.s.i > 1000000 || cur.s.i < -1000000)) || cur.s.t == Val::Float || cur.s.u > 1ull << 60)) way = 4;
	if (way == 9 && st == Present && (cur.s.t != Val::Int || cur.s.i > 1000000 || cur.s.i < 0)) way = 4;
	bool ok = true;
	if (st == Missing) ok = m_writable(base, h.path);
	string t;
	if (way == 10) { more.push_back(e); if (c.coin()) { CellP k = cell ? m_child(cell, e) : CellP(); more.push_back(core_elem(c, k)); if (!more.back().key && more.back().i == ~0u) more.back().i = 2; } }
	EPath sub = p;
	switch (way) {
	case 0: t = n + " = " + text; break;
	case 1: t = n + epath_str(EPath(1, e)) + " = " + text; sub.push_back(e); break;
	case 2: t = n + ".Set(" + epath_str(EPath(1, e)) + ", " + text + ")"; sub.push_back(e); break;
	case 3: t = n + ".Append(" + text + ")"; ok = ok && (cur.isnull() || cur.islist()); break;
	case 4: t = n + ".Clear()"; ok = ok && st == Present; break;
	case 5: t = n + "++"; ok = ok && st == Present && (cur.s.t == Val::Int || cur.s.t == Val::UInt); break;
	case 6: t = n + ".Erase" + epath_str(EPath(1, e)); ok = ok && st == Present && (cur.isnull() || (e.key ? cur.ismap() : cur.islist())); break;
	case 7: t = n + ".AsMap()"; ok = ok && (cur.isnull() || cur.ismap()); break;
	case 9: t = n + ar[arith]; ok = ok && st == Present; break;
	case 10: t = n + ".SetPath(" + epath_str(more) + ", " + text + ")"; sub.insert(sub.end(), more.begin(), more.end()); break;
	default: t = n + ".Resolve(" + text + ")"; break;
	}
	if (way == 1 || way == 2 || way == 10) ok = ok && m_writable(b ? b : CellP(new Cell), sub);
	c.note("%s%s%s", t.c_str(), ok ? "" : "   (rejected)", st == Missing ? "   (missing)" : st == Dead ? "   (element gone)" : "");
	VariantRef &r = *h.real;
	bool threw = false, invalid = false;
	string msg;
	try {
		switch (way) {
		case 0: r = rv; break;
		case 1: if (e.key) r[e.k] = rv; else r[e.i] = rv; break;
		case 2: if (e.key) r.Set(e.k, rv); else r.Set(e.i, rv); break;
		case 3: r.Append(rv); break;
		case 4: r.Clear(); break;
		case 5: ++r; break;
		case 6: if (e.key) r.Erase(e.k); else r.Erase(e.i); break;
		case 7: r.AsMap(); break;
		case 9:
			switch (arith) {
			case 0: r -= Variant(2); break;
			case 1: r += Variant(2); break;
			case 2: r *= Variant(2); break;
			case 3: r /= Variant(1); break;
			case 4: r %= Variant(7); break;
			default: --r; break;
			}
			break;
		case 10: r.SetPath(to_path(more), rv); break;
		default: r.Resolve(rv); break;
		}
	} catch (const InvalidReferenceError &ex) { threw = invalid = true; msg = ex.what(); }
	catch (const std::exception &ex) { threw = true; msg = ex.what(); }
	if (st == Dead) {
		// an error, or a write to something detached, or a new element of the old name
		if (threw) return;
		Same s;
		bool unchanged = true;
		for (unsigned k = 0; k < NROOT; ++k) if (!s.check(*real[k], model[k]->v, "").empty()) unchanged = false;
		CellP ob = h.obase.lock();
		if (!unchanged && ob && m_writable(ob, h.opath)) create(ob, h.opath)->v = val;
		hs.erase(hs.begin() + i);
		return;
	}
	if (invalid && h.shaky) { hs.erase(hs.begin() + i); return; }
	if (threw && ok) vp::fail(t + " failed: " + msg);
	if (!threw && !ok) vp::fail(t + " should be rejected but succeeded");
	bool bind = st == Present;
	if (ok) {
		CellP x;
		switch (way) {
		case 0: x = create(b, sub); x->v = val; break;
		case 1: case 2: case 10: create(b, sub)->v = val; break;
		case 9:
			switch (arith) {
			case 0: cell->v.s.i -= 2; break;
			case 1: cell->v.s.i += 2; break;
			case 2: cell->v.s.i *= 2; break;
			case 3: break;
			case 4: cell->v.s.i %= 7; break;
			default: cell->v.s.i--; break;
			}
			break;
		case 3: {
			x = create(b, sub);
			if (x->v.isnull()) x->v = mv_list();
			grew(x->v.o.get());
			CellP k(new Cell); k->v = val; x->v.o->l.push_back(k); break;
		}
		case 4: if (cell->v.o) { std::shared_ptr<MObj> keep = cell->v.o; keep->l.clear(); keep->m.clear(); }
			else if (cell->v.s.t == Val::Str) cell->v.s.s.clear();
			else cell->v = MV();
			break;
		case 5: if (cur.s.t == Val::Int) cell->v.s.i++; else cell->v.s.u++; break;
		case 6:
			if (cell->v.isnull()) break;
			if (e.key) cell->v.o->m.erase(e.k);
			else { std::vector<CellP> &l = cell->v.o->l; if (e.i + 1 < l.size()) l[e.i]->v = MV(); else if (e.i + 1 == l.size()) l.pop_back(); }
			break;
		case 7: x = create(b, sub); if (x->v.isnull()) x->v = mv_map(); break;
		default: x = create(b, sub); if (x->v.isnull()) x->v = val; break;
		}
		bind = true;
		age();
	}
	if (bind) {
		CellP now = st == Present ? cell : m_lookup(base, h.path);
		if (now) { h.bound = now; h.isbound = true; h.base = now; h.path.clear(); }
	}
	h.aged = false;
}

void World::modify() {
	unsigned r = c.pick(NROOT);
	EPath p = core_path(c, model[r], 2);
	CellP at = m_lookup(model[r], p);
	string n = fmt("v%u", r) + (p.empty() ? "" : epath_str(p));
	Elem e = core_elem(c, at);
	if (!e.key && e.i == ~0u) e.i = 3;
	Val sv = c.chance(1, 4) ? (c.coin() ? Val::list() : Val::map()) : core_scalar(c);
	unsigned way = c.weighted({4, 4, 3, 2, 2, 2, 2, 2});
	auto target = [&]() -> Variant & {
		Variant *v = real[r].get();
		for (auto &x : p) v = x.key ? &v->AsMap().find(x.k)->second : &v->AsList()[x.i];
		return *v;
	};
	switch (way) {
	case 0: {
		bool ok = m_writable(at, EPath(1, e));
		c.note("%s%s = %s%s", n.c_str(), epath_str(EPath(1, e)).c_str(), val_str(sv).c_str(), ok ? "" : "   (rejected)");
		try { if (e.key) target().Set(e.k, to_variant(sv)); else target().Set(e.i, to_variant(sv)); VP_CHECK(ok, "write should be rejected"); }
		catch (const std::exception &ex) { VP_CHECK(!ok, "write failed: %s", ex.what()); return; }
		create(at, EPath(1, e))->v = mv_from(sv);
		break;
	}
	case 1: {
		bool ok = at->v.isnull() || (e.key ? at->v.ismap() : at->v.islist());
		c.note("%s.Erase%s", n.c_str(), epath_str(EPath(1, e)).c_str());
		try { if (e.key) target().Erase(e.k); else target().Erase(e.i); VP_CHECK(ok, "erase should be rejected"); }
		catch (const std::exception &ex) { VP_CHECK(!ok, "erase failed: %s", ex.what()); return; }
		if (at->v.o) {
			if (e.key) at->v.o->m.erase(e.k);
			else { std::vector<CellP> &l = at->v.o->l; if (e.i + 1 < l.size()) l[e.i]->v = MV(); else if (e.i + 1 == l.size()) l.pop_back(); }
		}
		break;
	}
	case 2:
		c.note("%s = %s", n.c_str(), val_str(sv).c_str());
		target() = to_variant(sv);
		at->v = mv_from(sv);
		break;
	case 3:
		if (!at->v.islist()) return;
		c.note("%s.Append(%s)", n.c_str(), val_str(sv).c_str());
		target().Append(to_variant(sv));
		grew(at->v.o.get());
		{ CellP k(new Cell); k->v = mv_from(sv); at->v.o->l.push_back(k); }
		break;
	case 4:
		c.note("%s.Clear()", n.c_str());
		target().Clear();
		if (at->v.o) { std::shared_ptr<MObj> keep = at->v.o; keep->l.clear(); keep->m.clear(); }
		else if (at->v.s.t == Val::Str) at->v.s.s.clear();
		else at->v = MV();
		break;
	case 5: {                                   // share or replace whole roots
		unsigned q = c.pick(NROOT);
		c.note("v%u = v%u", r, q);
		*real[r] = *real[q];
		model[r]->v = model[q]->v;
		break;
	}
	case 6:                                     // the variant itself goes away
		c.note("destroy v%u", r);
		real[r].reset(new Variant);
		model[r].reset(new Cell);
		break;
	default: {
		GenOpt o; o.simple_keys = true; o.maxdepth = 3; o.longstr = false; o.big = false; o.text = TK_ASCII;
		Val d = gen_val(c, o);
		c.note("v%u = %s", r, val_str(d).c_str());
		*real[r] = to_variant(d);
		model[r]->v = mv_from(d);
	}
	}
	age();
}

void World::step() {
	++ops;
	unsigned k = c.weighted({5, 4, 4, 5, 1});
	hash = vp::hashmix(hash, k);
	switch (k) {
	case 0: if (hs.size() < 8) take(); break;
	case 1: if (!hs.empty()) use_read(c.pick(hs.size())); break;
	case 2: if (!hs.empty()) use_write(c.pick(hs.size())); break;
	case 3: modify(); break;
	default:
		if (!hs.empty()) { size_t i = c.pick(hs.size()); c.note("drop h%u", (unsigned)i); hs.erase(hs.begin() + i); }
	}
}
}

void vp_case(vp::Ctx &c) {
	World w(c);
	GenOpt o; o.simple_keys = true; o.maxdepth = 3; o.longstr = false; o.big = false; o.text = TK_ASCII;
	Val start = gen_container(c, o);
	*w.real[0] = to_variant(start);
	w.model[0]->v = mv_from(start);
	c.note("v0 starts as %s", val_str(start).c_str());
	unsigned max = c.thorough ? 60 : 30;
	while (w.ops < max && c.more(16)) {
		w.step();
		w.verify(fmt("operation %u", w.ops));
		c.evals(1);
	}
	// handles may outlive the variants they came from
	bool roots_first = c.coin();
	if (roots_first) { w.real.clear(); w.hs.clear(); }
	if (w.good) c.nontrivial(vp::hashmix(w.hash, val_hash(start)));
}

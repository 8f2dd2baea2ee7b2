// Deep copies: equal, same types, and nothing shared afterwards.
#include "core.h"
using namespace libvariant;
using std::string;
using vp::fmt;

const char *vp_rule = "the copied value is a container or blob and at least one mutation of either side was applied after the copy";

static Variant build(const MV &v, std::map<const MObj*, Variant> &memo) {
	if (!v.o) return to_variant(v.s);
	auto i = memo.find(v.o.get());
	if (i != memo.end()) return i->second;
	Variant r = v.o->list ? Variant::ListType : Variant::MapType;
	for (auto &x : v.o->l) r.Append(build(x->v, memo));
	for (auto &x : v.o->m) r.Set(x.first, build(x.second->v, memo));
	memo[v.o.get()] = r;
	return r;
}

// a graph: containers made earlier may be used again as elements
static MV gen_graph(vp::Ctx &c, const GenOpt &o) {
	std::vector<MV> made;
	unsigned n = 1 + c.pick(5);
	for (unsigned k = 0; k < n; ++k) {
		MV m = c.coin() ? mv_map() : mv_list();
		unsigned kids = c.pick(4);
		if (c.chance(1, 80)) {                             // wide
			unsigned wide = 50 + c.pick(300);
			MV again = made.empty() ? mv_list() : made[c.pick(made.size())];
			bool shared = c.coin();
			for (unsigned i = 0; i < wide; ++i) {
				CellP x(new Cell);
				x->v = shared ? again : i % 3 ? mv_scalar(Val::integer(i)) : mv_list();
				if (m.o->list) m.o->l.push_back(x); else m.o->m[fmt("w%u", i)] = x;
			}
		}
		for (unsigned i = 0; i < kids; ++i) {
			CellP x(new Cell);
			switch (c.weighted({3, 2, made.empty() ? 0u : 4u})) {
			case 0: x->v = mv_scalar(gen_scalar(c, o)); break;
			case 1: x->v = mv_scalar(gen_blob(c, o)); break;
			default: x->v = made[c.pick(made.size())]; break;
			}
			if (m.o->list) m.o->l.push_back(x); else m.o->m[c.oneof(core_keys)] = x;
		}
		made.push_back(m);
	}
	return made.back();
}

static void addresses(const Variant &v, std::map<const void*, string> &out, const string &where) {
	if (v.IsList()) {
		out[&v.AsList()] = where;
		unsigned k = 0;
		for (auto i = v.ListBegin(); i != v.ListEnd(); ++i) addresses(*i, out, where + fmt("[%u]", k++));
	} else if (v.IsMap()) {
		out[&v.AsMap()] = where;
		for (auto i = v.MapBegin(); i != v.MapEnd(); ++i) addresses(i->second, out, where + "/" + i->first);
	} else if (v.IsBlob()) {
		ConstBlobPtr b = v.AsBlob();
		out[b.get()] = where;
		for (unsigned k = 0; k < b->GetNumBuffers(); ++k) if (b->GetLength(k)) out[b->GetPtr(k)] = where;
	}
}

static string mutate(vp::Ctx &c, Variant &root) {
	Variant *v = &root;
	string path;
	while (c.more(3)) {
		if (v->IsList() && v->Size()) { unsigned i = c.pick(v->Size()); v = &v->AsList()[i]; path += fmt("[%u]", i); }
		else if (v->IsMap() && v->Size()) {
			auto i = v->AsMap().begin(); std::advance(i, c.pick(v->Size()));
			path += "/" + i->first; v = &i->second;
		} else break;
	}
	if (v->IsBlob()) {
		BlobPtr b = v->AsBlob();
		for (unsigned k = 0; k < b->GetNumBuffers(); ++k)
			if (b->GetLength(k)) { unsigned at = c.pick(b->GetLength(k)); ((char*)b->GetPtr(k))[at] ^= 1 + c.pick(255); return path + " blob byte changed"; }
	}
	switch (c.pick(6)) {
	case 0: if (v->IsList() || v->IsNull()) { v->Append(Variant(1)); return path + " append"; } break;
	case 1: if (v->IsMap()) { v->Set("new", Variant(1)); return path + " new key"; } break;
	case 2: v->Clear(); return path + " clear";
	case 3: if (v->IsList() && v->Size()) { v->AsList().pop_back(); return path + " pop"; }
		if (v->IsMap() && v->Size()) { v->AsMap().erase(v->AsMap().begin()); return path + " erase"; }
		break;
	case 4: if (v->IsNumber() && v->AsDouble() < 1000000 && v->AsDouble() > -1000000) { ++*v; return path + " increment"; } break;
	}
	*v = to_variant(core_scalar(c));
	return path + " assign";
}

void vp_case(vp::Ctx &c) {
	GenOpt o; o.nonfinite = true; o.nuls = true; o.text = TK_ANY; o.big = false; o.maxdepth = 4;
	MV m;
	switch (c.weighted({4, 3, 1})) {
	case 0: m = gen_graph(c, o); break;
	case 1: m = mv_from(gen_val(c, o)); break;
	default: m = mv_scalar(c.coin() ? gen_blob(c, o) : gen_scalar(c, o)); break;
	}
	Val want = mv_val(m);
	std::map<const MObj*, Variant> memo;
	Variant orig = build(m, memo);
	memo.clear();
	c.note("original %s", val_str(want).c_str());
	Variant copy;
	unsigned way = c.pick(4);
	Variant holder;
	switch (way) {
	case 0: copy = orig.Copy(); break;
	case 1: { const Variant &cr = orig; copy = cr.Copy(); break; }
	case 2: { VariantRef h(orig); copy = h.Copy(); break; }
	default: holder["x"] = orig; copy = holder["x"].Copy(); break;
	}
	Val got = from_variant(copy);
	// buffers of a blob may be merged, its bytes may not change
	VP_CHECK(val_same(got, want), "copy differs: %s", val_diff(want, got).c_str());
	VP_CHECK(val_same(from_variant(orig), want), "copying changed the original");
	std::function<bool(const Val&)> has_nan = [&](const Val &v) -> bool {
		if (v.t == Val::Float && v.d != v.d) return true;
		for (auto &x : v.l) if (has_nan(x)) return true;
		for (auto &x : v.m) if (has_nan(x.second)) return true;
		return false;
	};
	if (!has_nan(want)) VP_CHECK(copy == orig && orig == copy && !(copy != orig), "the copy does not compare equal to the original");
	std::map<const void*, string> a, b;
	addresses(orig, a, "original"); addresses(copy, b, "copy");
	for (auto &x : b) {
		auto i = a.find(x.first);
		if (i != a.end()) vp::fail(x.second + " is the same object as " + i->second);
	}
	unsigned muts = 0;
	while (muts < 8 && c.more(3)) {
		bool left = c.coin();
		Variant &side = left ? orig : copy;
		const Variant &other = left ? copy : orig;
		Val before = from_variant(other);
		string what = mutate(c, side);
		c.note("%s: %s", left ? "original" : "copy", what.c_str());
		Val after = from_variant(other);
		VP_CHECK(val_same(before, after), "%s of the %s changed the %s: %s", what.c_str(), left ? "original" : "copy", left ? "copy" : "original", val_diff(before, after).c_str());
		++muts;
	}
	if (c.chance(1, 8)) {                    // the copy must outlive the original
		Val before = from_variant(copy);
		orig = Variant(); holder = Variant();
		VP_CHECK(val_same(from_variant(copy), before), "dropping the original changed the copy");
	}
	if (muts && (m.o || m.s.t == Val::Blob)) c.nontrivial(vp::hashmix(val_hash(want), muts * 4 + way));
}

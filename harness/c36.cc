// C36: what is written depends on the value alone.
#include "val.h"
#include "texts.h"
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <Variant/Payload.h>
#include <algorithm>
#include <sstream>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the value has at least three parts, or something else was written or read in between";

namespace {
struct FullOut : EmitterOutput {                       // no room after some bytes
	size_t left;
	FullOut(size_t n) : left(n) {}
	unsigned Write(const void *, unsigned n) { if (n > left) throw std::runtime_error("full"); left -= n; return n; }
	void Flush() {}
	unsigned NumBytesWritten() const { return 0; }
};
struct Builder {
	Ctx &c;
	std::map<uint64_t, std::vector<std::pair<Val, Variant> > > have;     // containers made before
	bool share;
	Builder(Ctx &x, bool s) : c(x), share(s) {}
	// into an existing variant, whatever it held
	void put(Variant &at, const Val &v) {
		switch (v.t) {
		case Val::Null: if (c.coin()) at = VariantDefines::NullType; else { at = 5; at.Clear(); } break;
		case Val::Bool: at = v.b; break;
		case Val::Int: if (v.i > INT64_MIN && c.chance(1, 4)) { at = (intmax_t)(v.i - 1); ++at; } else at = (intmax_t)v.i; break;
		case Val::UInt: if (v.u > 0 && c.chance(1, 4)) { at = (uintmax_t)(v.u - 1); ++at; } else at = (uintmax_t)v.u; break;
		case Val::Float: at = v.d; break;
		case Val::Str: if (c.coin()) at = v.s; else { at = "another text"; at = v.s; } break;
		case Val::Blob: { std::vector<size_t> cuts; size_t left = v.s.size();
			while (left && c.more(2)) { size_t n = c.pick(left + 1); cuts.push_back(n); left -= n; }
			at = make_blob(v.s, cuts); break; }
		case Val::List: case Val::Map: at = container(v);
		}
	}
	Variant container(const Val &v) {
		uint64_t h = val_hash(v);
		if (share) for (auto &x : have[h]) if (val_same(x.first, v) && c.chance(3, 4)) { c.label("shared"); return x.second; }
		Variant r;
		if (c.chance(1, 5)) r = "was a text";
		if (v.t == Val::List) {
			size_t n = v.l.size();
			r = VariantDefines::ListType;
			switch (c.pick(5)) {
			case 0: for (auto &x : v.l) { Variant e; put(e, x); r.Append(e); } break;
			case 1: for (size_t i = n; i-- > 0;) { Variant e; put(e, v.l[i]); r.Set((unsigned)i, e); } break;
			case 2: for (size_t i = 0; i < n; ++i) { r.Append(VariantDefines::NullType); Variant &e = r.AsList()[i]; put(e, v.l[i]); } break;
			case 3: { Variant::List l; for (auto &x : v.l) { Variant e; put(e, x); l.push_back(e); } r = l; break; }
			default: for (auto &x : v.l) { Variant e; put(e, x); r.Append(e); } r.Append("extra"); r.Erase((unsigned)n);
			}
		} else {
			r = VariantDefines::MapType;
			std::vector<string> keys, extra;
			for (auto &x : v.m) keys.push_back(x.first);
			for (size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[c.pick(i)]);
			size_t how = c.pick(4);
			for (auto &k : keys) {
				const Val &x = v.m.find(k)->second;
				if (c.chance(1, 8)) { string e = k + "x"; if (!v.m.count(e)) { r[e] = 1; extra.push_back(e); } }
				Variant e;
				switch (how) {
				case 0: put(e, x); r[k] = e; break;
				case 1: put(e, x); r.Set(k, e); break;
				case 2: put(r.AsMap()[k], x); break;
				default: put(e, x); r.At(k, 0) = e;
				}
			}
			for (auto &e : extra) r.Erase(e);
		}
		if (c.chance(1, 8)) { Variant q = r.Copy(); r = q; }
		if (share) have[h].push_back({v, r});
		return r;
	}
};
// something else that may leave traces
void disturb(Ctx &c) {
	static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	SerializeType f = fs[c.pick(4)];
	Val v = gen_val_for(c, f);
	size_t how = c.pick(5);
	c.note("  then %s %s", how == 0 ? "write" : how == 1 ? "write without room" : how == 2 ? "write with other options" : how == 3 ? "read" : "read damaged", format_name(f));
	try {
		switch (how) {
		case 0: Serialize(to_variant(v), f); break;
		case 1: { shared_ptr<EmitterOutput> o(new FullOut(c.pick(60))); Emitter e = CreateEmitter(o, f, VariantDefines::NullType); e << to_variant(v); e.Close(); break; }
		case 2: { Variant p = gen_params(c, f); Serialize(to_variant(v), f, p); break; }
		case 3: Deserialize(gen_format_text(c, f, false), f); break;
		default: { string t = gen_format_text(c, f, false); damage_text(c, t, f); Deserialize(t, f); }
		}
	} catch (std::exception &) {}
}
string write(const Variant &v, SerializeType f, const Variant &p, bool payload) {
	return payload ? SerializeWithPayload(v, f, p) : p.IsNull() ? Serialize(v, f) : Serialize(v, f, p);
}
}
void vp_case(Ctx &c) {
	static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	SerializeType f = fs[c.weighted({4, 4, 4, 1})];
	Val v = gen_val_for(c, f);
	if (f != SERIALIZE_BUNDLEHDR && c.chance(1, 4)) {      // parts that occur more than once
		Val l = c.coin() ? Val::list() : Val::map();
		size_t n = 2 + c.pick(3);
		for (size_t i = 0; i < n; ++i) { if (l.t == Val::List) l.l.push_back(v); else l.m[vp::fmt("k%zu", i)] = v; }
		v = l;
	}
	Variant p = gen_params(c, f);
	bool payload = v.t == Val::Map && c.chance(1, 10);
	if (payload && f != SERIALIZE_BUNDLEHDR && c.coin()) { v.m["payload"] = Val::map(); v.m["payload"].m["data"] = Val::blob("some\nbytes"); }
	c.note("%s%s, value %s", format_name(f), payload ? " with payload" : "", val_str(v).c_str());
	c.note("params %s", p.IsNull() ? "none" : val_str(from_variant(p)).c_str());
	Variant a = to_variant(v);
	string ta;
	ta = write(a, f, p, payload);
	bool between = false;
	auto fail = [&](const Variant &x) {                     // writing the same value without room, or where it has no form
		if (!c.chance(1, 4)) return;
		static const SerializeType any[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
		SerializeType g = any[c.pick(4)];
		std::vector<char> room(c.pick(ta.size() + 1) + 1);
		Variant q;
		if (c.coin()) q["strict"] = true;
		c.note("  then write it as %s into %zu bytes", format_name(g), room.size());
		try { Serialize(&room[0], room.size(), x, g, q); } catch (std::exception &) { c.label("failed in between"); }
		between = true;
	};
	while (c.more(1)) { disturb(c); between = true; }
	fail(a);
	Builder b(c, c.coin());
	Variant d;
	if (v.t == Val::List || v.t == Val::Map) d = b.container(v); else b.put(d, v);
	if (!val_same(from_variant(d), v)) {
		// blobs differ in their buffers only
		if (!val_equal(from_variant(d), v)) vp::fail(vp::fmt("building the value step by step gives %s", val_str(from_variant(d)).c_str()));
	}
	Variant holder;
	size_t how = c.pick(4);
	string td;
	switch (how) {
	case 0: td = write(d, f, p, payload); break;
	case 1: { VariantRef r = d.Ref(); td = write(r, f, p, payload); break; }
	case 2: holder["k"].Append(d); td = write(holder["k"][0], f, p, payload); break;
	default: { const Variant &k = d; Variant q = p.IsNull() ? p : p.Copy(); td = write(k, f, q, payload); }
	}
	c.evals(2);
	c.label(format_name(f));
	VP_CHECK(td == ta, "the same value is written as %s and as %s", vp::quote(ta, 1500).c_str(), vp::quote(td, 1500).c_str());
	while (c.more(1)) { disturb(c); between = true; }
	fail(a);
	fail(d);
	string again = write(c.coin() ? a : d, f, p, payload);
	VP_CHECK(again == ta, "the value is written as %s and later as %s", vp::quote(ta, 1500).c_str(), vp::quote(again, 1500).c_str());
	if (c.chance(1, 3)) {                                   // options that say nothing
		Variant q = p.IsNull() ? Variant(Variant::MapType) : p.Copy();
		if (c.coin()) q["no such option"] = c.coin() ? Variant(1) : Variant("x");
		string same = payload ? SerializeWithPayload(a, f, q) : Serialize(a, f, q);
		VP_CHECK(same == ta, "with options that say nothing the value is written as %s instead of %s", vp::quote(same, 1500).c_str(), vp::quote(ta, 1500).c_str());
	}
	// what was read from the text is written as the same text
	if (!payload && f != SERIALIZE_BUNDLEHDR) {             // where all is text
		bool read = true;
		Variant back;
		try { back = Deserialize(ta, f); } catch (std::exception &) { read = false; }      // round trips are C07 to C11
		if (read) {
			string t2;
			try { t2 = write(back, f, p, false); } catch (std::exception &e) { vp::fail(vp::fmt("what was read from %s cannot be written: %s", vp::quote(ta, 1500).c_str(), e.what())); }
			VP_CHECK(t2 == ta, "what was read from %s is written as %s", vp::quote(ta, 1500).c_str(), vp::quote(t2, 1500).c_str());
			c.label("written again");
		}
	}
	if (between || val_nodes(v) >= 3) c.nontrivial(vp::hashmix(vp::hash64(ta), vp::hash64(td) + how));
}

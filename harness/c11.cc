// C11: bundle header serialisation round-trips within the format's domain.
#include "val.h"
#include "refguess.h"
#include <math.h>
#include <string.h>
using namespace libvariant;
using vp::Ctx;
const char *vp_rule = "the map has at least 2 keys, or a list, or a text value";

static bool wsp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string clean(std::string s, bool key) {
	std::string r;
	for (char ch : s) {
		if (ch == '\n' || ch == '#' || ch == 0 || (!key && ch == '|')) continue;
		if (key && (ch == ':' || wsp(ch))) continue;
		r += ch;
	}
	size_t b = 0, e = r.size();
	while (b < e && wsp(r[b])) ++b;
	while (e > b && wsp(r[e - 1])) --e;
	return r.substr(b, e - b);
}
static Val scalar(Ctx &c, bool inlist) {
	GenOpt o;
	o.blobs = false; o.nonfinite = false;
	switch (c.weighted({4, 4, 3, 4, 6, 3, 2})) {
	case 0: return Val::integer(gen_int(c));
	case 1: return Val::str(clean(gen_scalar_text(c), false));
	case 2: return Val::uinteger(gen_uint(c));
	case 3: return Val::real(gen_double(c, false));
	case 4: return Val::str(clean(gen_text(c, o), false));
	case 5: return Val::boolean(c.coin());
	default: return inlist ? Val::boolean(true) : Val::null();
	}
}
static Val image(const Val &v) {       // what must come back
	switch (v.t) {
	case Val::Null: return Val::str("");
	case Val::Bool: return Val::integer(v.b);
	case Val::Str: return v.s.empty() ? v : ref_guess(v.s);
	case Val::List: { Val r = v; for (auto &x : r.l) x = image(x); return r; }
	case Val::Map: { Val r = v; for (auto &x : r.m) x.second = image(x.second); return r; }
	default: return v;
	}
}
static bool same(const Val &a, const Val &b) {
	if (a.t == Val::List && b.t == Val::List) {
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!guess_same(a.l[i], b.l[i])) return false;
		return true;
	}
	if (a.t == Val::Map && b.t == Val::Map) {
		if (a.m.size() != b.m.size()) return false;
		for (auto &x : a.m) { auto y = b.m.find(x.first); if (y == b.m.end() || !same(x.second, y->second)) return false; }
		return true;
	}
	return guess_same(a, b);
}
void vp_case(Ctx &c) {
	Val v = Val::map();
	GenOpt o;
	unsigned n = 0, limit = c.chance(1, 30) ? 400 : 12;
	unsigned avg = limit > 12 ? 150 : 4;
	while (n++ < limit && c.more(avg)) {
		std::string k = c.coin() ? clean(gen_key(c, o), true) : vp::fmt("k%u", n);
		if (c.chance(1, 25)) {        // keys close to the one the format keeps for itself
			static const char *const near[] = {"bundle.version.", "bundle.version2", "bundle.versio", "bundle", "bundle.", "Bundle.Version", "version", "payload", "payload.length", "xbundle.version"};
			k = near[c.pick(10)];
		}
		if (k == "bundle.version") k = "x";
		Val x;
		if (c.chance(1, 3)) {
			x = Val::list();
			unsigned m = 0, ml = c.chance(1, 20) ? 300 : 8;
			while (m++ < ml && c.more(ml > 8 ? 100 : 3)) {
				Val e = scalar(c, true);
				if (e.t == Val::Str && e.s.empty()) e = Val::str("e");
				x.l.push_back(e);
			}
		} else x = scalar(c, false);
		v.m[k] = x;
	}
	if (c.chance(1, 400)) { v.m["large"] = gen_large(c, false); c.label("large"); }
	Variant params;
	if (c.chance(1, 3)) { params = VariantDefines::MapType; params["precision"] = (int)(17 + c.pick(6)); }
	c.note("value %s", val_str(v).c_str());
	bool nt = v.m.size() >= 2;
	for (auto &x : v.m) if (x.second.t == Val::List || x.second.t == Val::Str) nt = true;
	if (nt) c.nontrivial(val_hash(v));
	Variant in = to_variant(v);
	std::string text = params.IsNull() ? Serialize(in, SERIALIZE_BUNDLEHDR) : Serialize(in, SERIALIZE_BUNDLEHDR, params);
	c.note("text %s", vp::quote(text, 3000).c_str());
	VP_CHECK(val_same(from_variant(in), v), "serialising changed the variant");
	Val img = image(v), b = from_variant(Deserialize(text, SERIALIZE_BUNDLEHDR));
	VP_CHECK(same(img, b), "round trip of %s gave %s, not %s (text %s), first difference %s", val_str(v).c_str(), val_str(b).c_str(), val_str(img).c_str(),
			vp::quote(text, 1500).c_str(), val_diff(img, b).c_str());
	// comments, blank lines, white space and the missing last line end change nothing
	std::string t2;
	size_t p = 0;
	while (p < text.size()) {
		size_t e = text.find('\n', p);
		if (e == std::string::npos) e = text.size();
		std::string line = text.substr(p, e - p);
		p = e + 1;
		while (c.chance(1, 8)) {
			static const char *junk[] = {"", " ", "# comment", "   # x: y", "\t", "junk without separator", "#", "# a: 1"};
			t2 += junk[c.pick(8)]; t2 += "\n";
		}
		if (c.chance(1, 6)) line = (c.coin() ? " " : "\t") + line;
		if (c.chance(1, 5)) {
			static const char *tail[] = {" ", " # note", "#note | x", "\t", "\r"};
			line += tail[c.pick(5)];
		}
		t2 += line + "\n";
	}
	bool cut = c.coin();
	if (cut && !t2.empty()) t2.resize(t2.size() - 1);
	c.note("edited %s", vp::quote(t2, 3000).c_str());
	if (cut) c.label("no final line end");
	Val b2 = from_variant(Deserialize(t2, SERIALIZE_BUNDLEHDR));
	VP_CHECK(val_same(b, b2), "edited text %s reads as %s, not %s", vp::quote(t2, 1500).c_str(), val_str(b2).c_str(), val_str(b).c_str());
	c.evals(2);
}

// C18: blobs keep their bytes, memory is released exactly once, base64 is RFC 4648.
#include "val.h"
#include "texts.h"
#include <string.h>
#include <stdlib.h>
#include <memory>
#include <algorithm>
#include <set>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "at least two blobs or handles, or at least 3 bytes of data";

// ---- reference codec
static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string enc(const string &s) {
	string r;
	for (size_t i = 0; i < s.size(); i += 3) {
		uint32_t v = 0;
		size_t n = std::min<size_t>(3, s.size() - i);
		for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
		for (size_t k = 0; k < 4; ++k) r += k <= n ? alpha[v >> (18 - 6 * k) & 63] : '=';
	}
	return r;
}
static string dec(const string &s) {
	string r;
	uint32_t v = 0;
	unsigned bits = 0;
	for (char ch : s) {
		const char *p = ch ? strchr(alpha, ch) : 0;
		if (!p) continue;
		v = v << 6 | (unsigned)(p - alpha);
		bits += 6;
		if (bits >= 8) { bits -= 8; r += (char)(v >> bits & 255); }
	}
	return r;
}

// ---- ownership
struct Record {                      // one buffer given to a blob
	char *p = 0;
	size_t n = 0;
	unsigned freed = 0;
	bool bad_ctx = false;
	int mode = 0;                    // 0 own free function, 1 referenced
};
struct World { std::vector<std::unique_ptr<Record>> recs; };
static World *world;
static int ctx_mark[4];
static void record_free(void *p, void *ctx) {
	for (auto &r : world->recs)
		if (r->p == p && r->mode == 0 && !r->freed) {
			r->freed++;
			if (ctx != &ctx_mark[r->n % 4]) r->bad_ctx = true;
			return;
		}
	for (auto &r : world->recs) if (r->p == p) { r->freed++; return; }
	vp::fail("the free function was called with a pointer that was never given to a blob");
}
struct MBlob {                       // model of one blob
	std::vector<Record *> recs;      // buffers whose release is observed
	string bytes;
};
typedef std::shared_ptr<MBlob> MB;
struct Slot { MB m; BlobPtr p; Variant v; int kind = 0; };   // kind 0 pointer, 1 variant, 2 list element

static string bytes_of(const Slot &s) {
	if (s.kind == 0) return blob_bytes(s.p);
	const Variant &v = s.v;
	return blob_bytes(s.kind == 1 ? v.AsBlob() : v[0u].AsBlob());
}
static BlobPtr get(Slot &s) { return s.kind == 0 ? s.p : s.kind == 1 ? s.v.AsBlob() : s.v[0u].AsBlob(); }

static void check_world(const std::vector<Slot> &slots, const std::set<MB> &live, const char *after) {
	std::set<Record *> alive;
	for (auto &b : live) for (Record *r : b->recs) alive.insert(r);
	for (auto &r : world->recs) {
		VP_CHECK(!r->bad_ctx, "the free function got another context");
		unsigned want = r->mode == 1 ? 0 : alive.count(r.get()) ? 0 : 1;
		VP_CHECK(r->freed == want, "after %s: a buffer of %zu bytes was released %u times, expected %u", after, r->n, r->freed, want);
	}
	for (auto &s : slots) if (s.m) {
		string b = bytes_of(s);
		VP_CHECK(b == s.m->bytes, "after %s: blob holds %s, not %s", after, vp::quote(b, 200).c_str(), vp::quote(s.m->bytes, 200).c_str());
	}
}
static void ownership(Ctx &c) {
	World w;
	world = &w;
	std::vector<std::unique_ptr<char[]>> keep;
	std::vector<Slot> slots(4);
	unsigned nops = 0, created = 0;
	uint64_t h = 0;
	auto live = [&] { std::set<MB> r; for (auto &s : slots) if (s.m) r.insert(s.m); return r; };
	auto step = [&](const char *what) { check_world(slots, live(), what); };
	while (nops++ < 40 && c.more(12)) {
		size_t a = c.pick(4), b = c.pick(4);
		unsigned op = c.weighted({6, 4, 3, 3, 3, 2, 2});
		h = vp::hashmix(h, op * 16 + a * 4 + b);
		Slot &s = slots[a];
		switch (op) {
		case 0: {
			MB m(new MBlob);
			string bytes = gen_bytes(c, 6);
			unsigned mode = c.pick(4);
			std::vector<size_t> cuts;
			bool iov = c.coin();
			if (iov && c.chance(1, 30)) { bytes += gen_bytes(c, 60); for (size_t i = 0, k = 20 + c.pick(150), left = bytes.size(); i < k; ++i) { size_t x = left ? (i % 7 ? i % 2 : c.pick(3)) : 0; if (x > left) x = left; cuts.push_back(x); left -= x; } }
			else if (iov) { size_t left = bytes.size(); while (c.chance(1, 2)) { size_t k = c.pick(left + 1); cuts.push_back(k); left -= k; } }
			std::vector<struct iovec> v;
			size_t at = 0;
			for (size_t i = 0; i <= cuts.size(); ++i) {
				size_t n = i < cuts.size() ? cuts[i] : bytes.size() - at;
				char *p;
				if (mode == 2) p = (char *)malloc(n);
				else { keep.emplace_back(new char[n]); p = keep.back().get(); }
				if (n) memcpy(p, bytes.data() + at, n);
				at += n;
				if (mode == 0 || mode == 3) {
					w.recs.emplace_back(new Record);
					w.recs.back()->p = p; w.recs.back()->n = 0; w.recs.back()->mode = mode == 3;
					m->recs.push_back(w.recs.back().get());
				}
				struct iovec x = {p, n};
				v.push_back(x);
			}
			if (iov && c.chance(1, 10) && mode != 2) { v.clear(); bytes.clear(); if (mode == 0) for (Record *r : m->recs) r->freed = 1; m->recs.clear(); }
			m->bytes = bytes;
			BlobPtr p;
			struct iovec dummy;
			struct iovec *vp_ = v.empty() ? &dummy : &v[0];
			switch (mode) {
			case 0: p = iov ? Blob::Create(vp_, v.size(), record_free, &ctx_mark[0]) : Blob::Create(v[0].iov_base, v[0].iov_len, record_free, &ctx_mark[0]); break;
			case 1: p = iov ? Blob::CreateCopy(vp_, v.size()) : Blob::CreateCopy(v[0].iov_base, v[0].iov_len); break;
			case 2: p = iov ? Blob::CreateFree(vp_, v.size()) : Blob::CreateFree(v[0].iov_base, v[0].iov_len); break;
			default: p = iov ? Blob::CreateReferenced(vp_, v.size()) : Blob::CreateReferenced(v[0].iov_base, v[0].iov_len); break;
			}
			if (mode == 1 && !v.empty() && v[0].iov_len) memset(v[0].iov_base, 'Z', v[0].iov_len);   // a copy does not notice
			// the array of pieces may be reused right away
			for (auto &x : v) { x.iov_base = 0; x.iov_len = 99; }
			c.note("%zu: new blob, mode %u, %zu buffers, %s", a, mode, v.size(), vp::quote(bytes, 100).c_str());
			s.m.reset(); s.p.reset(); s.v = Variant();
			s.m = m; s.kind = c.pick(3);
			if (s.kind == 0) s.p = p;
			else if (s.kind == 1) s.v = p;
			else { s.v = Variant(VariantDefines::ListType); s.v.Append(p); }
			p.reset();
			++created;
			step("creating");
			break;
		}
		case 1: {                     // another handle
			if (!slots[b].m || a == b) break;
			c.note("%zu: handle of %zu", a, b);
			BlobPtr p = get(slots[b]);
			MB m = slots[b].m;
			s.p.reset(); s.v = Variant();
			s.m = m; s.kind = c.pick(3);
			if (s.kind == 0) s.p = p;
			else if (s.kind == 1) { if (slots[b].kind == 1) s.v = slots[b].v; else s.v = p; }
			else { s.v = Variant(VariantDefines::ListType); s.v.Append(p); }
			p.reset();
			step("taking a handle");
			break;
		}
		case 2: {                     // deep copy
			if (!slots[b].m) break;
			c.note("%zu: copy of %zu", a, b);
			MB m(new MBlob);
			m->bytes = slots[b].m->bytes;
			const void *old = slots[b].m->bytes.empty() ? 0 : get(slots[b])->GetPtr(0);
			if (slots[b].kind == 0 || c.coin()) {
				BlobPtr p = get(slots[b])->Copy();
				s.v = Variant(); s.p = p; s.kind = 0;
			} else {
				Variant v = slots[b].v.Copy();
				s.p.reset(); s.v = v; s.kind = slots[b].kind;
			}
			s.m = m;
			BlobPtr p = get(s);
			VP_CHECK(!old || !p->GetNumBuffers() || p->GetPtr(0) != old, "a copy shares memory with the original");
			p.reset();
			step("copying");
			break;
		}
		case 3: c.note("%zu: dropped", a); s.m.reset(); s.p.reset(); if (c.coin()) s.v = Variant(); else if (c.coin()) s.v = 5; else { Variant t; s.v = t; } step("dropping"); break;
		case 4: {                     // write through a handle
			if (!s.m || s.m->bytes.empty()) break;
			size_t at = c.pick(s.m->bytes.size());
			char val = (char)c.pick(256);
			c.note("%zu: byte %zu = %d", a, at, val);
			BlobPtr p = get(s);
			size_t off = at;
			unsigned i = 0;
			while (off >= p->GetLength(i)) off -= p->GetLength(i++);
			((char *)p->GetPtr(i))[off] = val;
			s.m->bytes[at] = val;
			p.reset();
			step("writing");
			break;
		}
		case 5: {                     // swap
			c.note("%zu <-> %zu", a, b);
			std::swap(slots[a], slots[b]);
			step("swapping");
			break;
		}
		default: {                    // compare
			if (!s.m || !slots[b].m) break;
			int want = s.m->bytes < slots[b].m->bytes ? -1 : s.m->bytes > slots[b].m->bytes ? 1 : 0;
			int got = get(s)->Compare(get(slots[b]));
			VP_CHECK((got > 0) - (got < 0) == want, "comparing %s with %s gave %d", vp::quote(s.m->bytes, 200).c_str(), vp::quote(slots[b].m->bytes, 200).c_str(), got);
			VP_CHECK(get(s)->GetTotalLength() == s.m->bytes.size(), "total length");
		}
		}
	}
	for (auto &s : slots) { s.m.reset(); s.p.reset(); s.v = Variant(); step("dropping everything"); }
	c.label("ownership");
	c.evals(nops);
	if (created >= 2) c.nontrivial(h);
	world = 0;
}

static void splits(Ctx &c) {
	string bytes = c.chance(1, 8) ? gen_bytes(c, 400) : gen_bytes(c, 12);
	if (c.chance(1, 400)) { bytes = gen_large(c, true).s; c.label("large"); }
	auto cut = [&] {
		std::vector<size_t> r;
		size_t left = bytes.size();
		if (c.chance(1, 40)) for (size_t i = 0, n = 20 + c.pick(150); i < n; ++i) { size_t k = i % 5 ? std::min<size_t>(left, i % 3) : c.pick(left + 1) / 4; r.push_back(k); left -= k; }
		while (c.chance(2, 3)) { size_t k = c.chance(1, 4) ? 0 : c.pick(left + 1); r.push_back(k); left -= k; }
		return r;
	};
	BlobPtr a = make_blob(bytes, cut()), b = make_blob(bytes, cut());
	c.note("bytes %s, %u and %u buffers", vp::quote(bytes, 600).c_str(), a->GetNumBuffers(), b->GetNumBuffers());
	VP_CHECK(blob_bytes(a) == bytes && blob_bytes(b) == bytes, "content");
	VP_CHECK(a->GetTotalLength() == bytes.size() && b->GetTotalLength() == bytes.size(), "total length %u and %u, not %zu", a->GetTotalLength(), b->GetTotalLength(), bytes.size());
	VP_CHECK(a->Compare(b) == 0 && b->Compare(a) == 0, "same bytes compare as different");
	Variant va = a, vb = b;
	VP_CHECK(va == vb && !(va != vb) && !(va < vb) && va.Compare(vb) == 0, "variants of the same bytes differ");
	VP_CHECK(va.Size() == bytes.size() || va.Size() == vb.Size(), "size of the variants differs");
	BlobPtr k = a->Copy();
	VP_CHECK(blob_bytes(k) == bytes, "copy has other bytes");
	// a neighbour: one byte changed, added or removed
	string o = bytes;
	switch (c.pick(3)) {
	case 0: o += (char)c.pick(256); break;
	case 1: if (!o.empty()) { size_t i = c.pick(o.size()); o[i] ^= 1 + c.pick(255); } break;
	default: if (!o.empty()) o.erase(c.pick(o.size()), 1);
	}
	BlobPtr n = make_blob(o, std::vector<size_t>(1, c.pick(o.size() + 1)));
	int want = bytes < o ? -1 : bytes > o ? 1 : 0, got = a->Compare(n), rev = n->Compare(a);
	VP_CHECK((got > 0) - (got < 0) == want && (rev > 0) - (rev < 0) == -want, "comparing %s with %s gave %d and %d", vp::quote(bytes, 200).c_str(), vp::quote(o, 200).c_str(), got, rev);
	// serialised the same, as RFC 4648 base64
	string e = enc(bytes);
	for (SerializeType f : {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST}) {
		Variant la(VariantDefines::ListType), lb(VariantDefines::ListType);
		la.Append(va); lb.Append(vb);
		string ta = Serialize(la, f), tb = Serialize(lb, f);
		VP_CHECK(ta == tb, "%s text depends on the split: %s and %s", format_name(f), vp::quote(ta, 500).c_str(), vp::quote(tb, 500).c_str());
		string flat;
		for (char ch : ta) if (ch != '\n' && ch != ' ' && ch != '\r') flat += ch;
		VP_CHECK(e.empty() || flat.find(e) != string::npos, "%s text %s does not contain the base64 text %s", format_name(f), vp::quote(ta, 800).c_str(), e.c_str());
		Variant back = Deserialize(ta, f);
		VP_CHECK(back[0u].IsBlob() && blob_bytes(back[0u].AsBlob()) == bytes, "%s gives other bytes back", format_name(f));
	}
	Variant none = BlobPtr();
	VP_CHECK(none.IsBlob() && blob_bytes(none.AsBlob()).empty() && (none == va) == bytes.empty(), "a variant of no blob is not an empty blob");
	if (c.chance(1, 20)) {
		std::vector<size_t> parts = cut();
		unsigned mode = c.pick(3);
		vp::leak_check([&] {
			std::vector<struct iovec> v;
			size_t at = 0;
			for (size_t i = 0; i <= parts.size(); ++i) {
				size_t n = i < parts.size() ? parts[i] : bytes.size() - at;
				struct iovec x = {malloc(n), n};
				if (n) memcpy(x.iov_base, bytes.data() + at, n);
				at += n;
				v.push_back(x);
			}
			BlobPtr p = Blob::CreateFree(&v[0], v.size());
			Variant a = p, b = a.Copy();
			if (mode == 0) a = 1;
			if (mode == 1) { Variant l(VariantDefines::ListType); l.Append(a); l.Append(b); l.Clear(); }
			if (mode == 2) { BlobPtr k = p->Copy(); b = k; a = b; }
		}, "blobs that own malloc memory");
	}
	c.label("splits");
	c.evals(5);
	if (bytes.size() >= 3) c.nontrivial(vp::hash64(bytes));
}

static void decoding(Ctx &c) {
	// alphabet characters with anything the formats let through in between
	string s, want;
	if (c.coin()) s = enc(gen_bytes(c, 12));
	else while (c.more(10)) s += alpha[c.pick(64)];
	static const char junk[] = " \n\t-_.,:;!*()%@^~`?$#{|}[]'";
	unsigned k = 0;
	while (k++ < 8 && c.chance(1, 2)) {
		size_t end = s.find('=');
		if (end == string::npos) end = s.size();
		size_t at = c.pick(end + 1);
		if (c.chance(1, 4)) { static const char *u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}; s.insert(at, u[c.pick(3)]); }
		else s.insert(at, 1, junk[c.pick(sizeof(junk) - 1)]);
		while (at < s.size() && (s[at] & 0xc0) == 0x80) ++at;
	}
	// an inserted character may have split another one; keep valid UTF-8 only
	if (!utf8_valid(s)) throw vp::Discard();
	want = dec(s);
	c.note("base64 text %s", vp::quote(s, 800).c_str());
	Val x = from_variant(Deserialize("<plist><data>" + s + "</data></plist>", SERIALIZE_XMLPLIST));
	VP_CHECK(x.t == Val::Blob && x.s == want, "<data>%s read as %s, not %s", vp::quote(s, 500).c_str(), val_str(x).c_str(), vp::quote(want, 300).c_str());
	string q;
	for (char ch : s) if (ch == '\n') q += "\\n"; else if (ch == '\t') q += "\\t"; else q += ch;
	Val y = from_variant(Deserialize("!!binary \"" + q + "\"", SERIALIZE_YAML));
	VP_CHECK(y.t == Val::Blob && y.s == want, "!!binary %s read as %s, not %s", vp::quote(s, 500).c_str(), val_str(y).c_str(), vp::quote(want, 300).c_str());
	c.label("decoding");
	c.evals(2);
	if (want.size() >= 3) c.nontrivial(vp::hash64(s));
}
void vp_case(Ctx &c) {
	switch (c.weighted({4, 3, 2})) {
	case 0: ownership(c); break;
	case 1: splits(c); break;
	default: decoding(c);
	}
}

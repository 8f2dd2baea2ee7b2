// C17: documents with a binary payload.
#include "val.h"
#include "texts.h"
#include "core.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <Variant/Payload.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sstream>
#include <memory>
#include <algorithm>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the payload has at least 1 byte";

static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};

class WindowIn : public ParserInput {       // hands out a private, exactly sized copy of growing windows
public:
	const string &t;
	std::vector<unsigned> sizes;
	std::unique_ptr<char[]> win;
	size_t pos = 0, have = 0, turn = 0;
	WindowIn(const string &x) : t(x) {}
	const void *GetPtr(unsigned &len) {
		size_t left = t.size() - pos, want = len > 0 ? len : 1;
		while (have < want && have < left) have = std::min(left, have + sizes[turn++ % sizes.size()]);
		len = have;
		if (!have) return 0;
		win.reset(new char[have]);
		memcpy(win.get(), t.data() + pos, have);
		return win.get();
	}
	void Release(unsigned len) {
		if (len > have) vp::fail("released more than was handed out");
		have -= len; pos += len;
	}
};
static CellP cell(const Val &v) { CellP c(new Cell); c->v = mv_from(v); return c; }
static bool related(const EPath &a, const EPath &b) {     // one is a prefix of the other
	for (size_t i = 0; i < a.size() && i < b.size(); ++i)
		if (a[i].key != b[i].key || (a[i].key ? a[i].k != b[i].k : a[i].i != b[i].i)) return false;
	return true;
}
struct Doc {
	SerializeType f;
	Val head;                 // without payload, without length
	bool has = false;
	Val blob;
	EPath dpath, lpath;
	bool dset = false, lset = false, ignore = false, over = false;
	uint64_t override_len = 0;
	Variant params;
	Val full;                 // what is serialised
	Val expect;               // header that must be read back
	uint64_t announced = 0;
	bool ok = true;           // locations fit the header
	string show() const {
		return vp::fmt("format %s, value %s, data at %s, length at %s%s%s", format_name(f), val_str(full).c_str(), epath_str(dpath).c_str(), epath_str(lpath).c_str(),
			ignore ? ", ignore_payload" : "", over ? vp::fmt(", payload_length %llu", (unsigned long long)override_len).c_str() : "");
	}
};
static EPath location(Ctx &c, const Val &head, SerializeType f, bool length) {
	EPath p;
	static const char *names[] = {"payload", "data", "length", "info", "n", "a/b", "x[0]", "k\\"};
	if (f == SERIALIZE_BUNDLEHDR) { p.push_back(Elem(string(length ? "len" : "dat") + (c.coin() ? "" : ".x"))); return p; }
	CellP at = cell(head);
	if (c.coin()) {          // somewhere inside what exists
		EPath q = core_path(c, at, 2);
		for (auto &e : q) { if (!e.key && e.i > 40) break; p.push_back(e); }
	}
	do {
		if (c.chance(1, 4) && !p.empty()) p.push_back(Elem((unsigned)c.pick(5)));
		else p.push_back(Elem(string(names[c.pick(8)])));
	} while (c.chance(1, 3));
	return p;
}
static Doc gen(Ctx &c, SerializeType f, const Variant &fparams) {
	Doc d;
	d.f = f;
	do {
		d.head = gen_val_for(c, f);
		if (d.head.t != Val::Map) { Val m = Val::map(); m.m["v"] = d.head; d.head = m; }
	} while (0);
	if (f != SERIALIZE_BUNDLEHDR && c.chance(1, 6)) { Val l = Val::list(); unsigned n = c.pick(4); for (unsigned i = 0; i < n; ++i) l.l.push_back(Val::integer(i)); d.head.m["info"] = l; }
	if (f != SERIALIZE_BUNDLEHDR && c.chance(1, 12)) d.head.m["payload"] = c.coin() ? Val::null() : c.coin() ? Val::map() : Val::integer(5);
	d.params = fparams.IsMap() ? fparams.Copy() : Variant(VariantDefines::MapType);
	d.dset = c.chance(1, 3); d.lset = c.chance(1, 3);
	if (d.dset) d.dpath = location(c, d.head, f, false);
	else if (f == SERIALIZE_BUNDLEHDR) d.dpath.push_back(Elem(string("payload.data")));
	else { d.dpath.push_back(Elem(string("payload"))); d.dpath.push_back(Elem(string("data"))); }
	if (d.lset && d.dset && d.dpath.size() > 1 && c.chance(1, 3)) {      // side by side
		d.lpath.assign(d.dpath.begin(), d.dpath.end() - 1);
		d.lpath.push_back(d.dpath.back().key ? Elem(string("size")) : Elem((unsigned)(d.dpath.back().i ? d.dpath.back().i - 1 : 1)));
	} else if (d.lset) d.lpath = location(c, d.head, f, true);
	else if (f == SERIALIZE_BUNDLEHDR) d.lpath.push_back(Elem(string("payload.length")));
	else { d.lpath.push_back(Elem(string("payload"))); d.lpath.push_back(Elem(string("length"))); }
	if (related(d.dpath, d.lpath)) throw vp::Discard();
	if (d.dset) d.params["data_path"] = PathString(to_path(d.dpath));
	if (d.lset) d.params["length_path"] = PathString(to_path(d.lpath));
	d.has = c.chance(5, 6);
	if (d.has) {
		string b = c.chance(1, 12) ? string(1 + c.pick(30000), (char)c.pick(256)) + gen_bytes(c, 10) : gen_bytes(c, c.coin() ? 6 : 60);
		d.blob = Val::blob(b);
		while (c.chance(1, 3)) d.blob.cuts.push_back(c.pick(b.size() / 2 + 1));
		size_t sum = 0, n = 0;
		while (n < d.blob.cuts.size() && sum + d.blob.cuts[n] <= b.size()) sum += d.blob.cuts[n++];
		d.blob.cuts.resize(n);
	}
	CellP root = cell(d.head);
	uint64_t said = 0;
	if (d.has) {
		if (!m_writable(root, d.dpath)) throw vp::Discard();
		m_create(root, d.dpath)->v = mv_scalar(d.blob);
		d.full = mv_val(root->v);
	} else {
		if (m_lookup(root, d.dpath)) throw vp::Discard();
		d.full = d.head;
	}
	d.ignore = c.chance(1, 10);
	if (c.chance(1, 10)) { d.over = true; d.override_len = c.coin() ? gen_uint(c) : c.pick(100); d.params["payload_length"] = (uintmax_t)d.override_len; }
	if (d.ignore) d.params["ignore_payload"] = true;
	if (d.ignore && !d.has) {
		CellP x = m_lookup(root, d.lpath);
		if (x) throw vp::Discard();      // any value may be there
		if (c.coin() && m_writable(root, d.lpath)) {
			said = c.coin() ? c.pick(100) : c.pick(1 << 30);
			m_create(root, d.lpath)->v = mv_scalar(Val::uinteger(said));
			if (m_lookup(root, d.dpath)) throw vp::Discard();      // filled up to the length with nulls
			d.full = mv_val(root->v);
		}
	}
	d.announced = d.over ? d.override_len : d.has ? d.blob.s.size() : said;
	// the header that comes out: data location empty, length set
	d.ok = m_writable(root, d.lpath);
	if (d.has) {
		EPath up(d.dpath.begin(), d.dpath.end() - 1);
		CellP parent = m_lookup(root, up);
		if (parent->v.ismap()) parent->v.o->m.erase(d.dpath.back().k);
		else parent->v.o->l[d.dpath.back().i]->v = MV();
	}
	if (d.ok) { m_create(root, d.lpath)->v = mv_scalar(Val::uinteger(d.announced)); d.expect = mv_val(root->v); }
	if (!d.has && !m_writable(root, d.dpath)) throw vp::Discard();
	return d;
}
static Val through(const Val &v, SerializeType f, const Variant &params) { return from_variant(Deserialize(Serialize(to_variant(v), f, params), f)); }

static void check_read(const Doc &d, const Val &header, const Variant &got, const char *how, const string &text) {
	CellP want = cell(header);
	bool data = d.announced > 0;
	if (data) m_create(want, d.dpath)->v = mv_scalar(Val::blob(d.blob.s));
	Val w = mv_val(want->v), g = from_variant(got);
	if (data) {
		CellP gc = cell(g);
		CellP x = m_lookup(gc, d.dpath);
		VP_CHECK(x && x->v.s.t == Val::Blob, "%s: no payload blob at the data location, read %s from %s", how, val_str(g).c_str(), vp::quote(text, 1500).c_str());
		VP_CHECK(x->v.s.s == d.blob.s, "%s: payload is %s, not %s", how, vp::quote(x->v.s.s, 300).c_str(), vp::quote(d.blob.s, 300).c_str());
	}
	std::function<void(Val&)> flat = [&](Val &v) { v.cuts.clear(); v.noparts = false; for (auto &x : v.l) flat(x); for (auto &x : v.m) flat(x.second); };
	flat(w); flat(g);
	VP_CHECK(val_same(w, g), "%s: read %s, expected %s, first difference %s (text %s)", how, val_str(g).c_str(), val_str(w).c_str(), val_diff(w, g).c_str(), vp::quote(text, 1500).c_str());
}

class PartBuf : public std::stringbuf {       // takes part of each write
public:
	std::streamsize most;
	PartBuf(unsigned n) : most(n) {}
	std::streamsize xsputn(const char *p, std::streamsize n) { return std::stringbuf::xsputn(p, std::min(n, most)); }
};
void vp_case(Ctx &c) {
	SerializeType f = fs[c.pick(4)];
	Variant fparams = c.chance(1, 3) ? gen_params(c, f) : Variant();
	unsigned ndocs = 1 + (c.chance(1, 4) ? 1 + c.pick(2) : 0);
	std::vector<Doc> docs;
	for (unsigned i = 0; i < ndocs; ++i) { docs.push_back(gen(c, f, fparams)); c.note_s(docs.back().show() + "\n"); }
	c.label(format_name(f));
	PartBuf pb(c.chance(1, 3) ? 1 + c.pick(40) : 1000000);
	struct { PartBuf &b; string str() const { return b.str(); } } oss = {pb};
	shared_ptr<EmitterOutput> out = CreateEmitterOutput((std::streambuf *)&pb);
	std::vector<size_t> ends;
	for (Doc &d : docs) {
		Variant v = to_variant(d.full);
		bool threw = false;
		string why;
		try { SerializeWithPayload(out, v, f, d.params); } catch (const std::exception &e) { threw = true; why = e.what(); }
		VP_CHECK(val_same(from_variant(v), d.full), "serialising changed the value: %s", d.show().c_str());
		if (!d.ok) {
			VP_CHECK(threw, "the length has no place in the header, but no error was raised: %s gave %s", d.show().c_str(), vp::quote(oss.str(), 1500).c_str());
			c.label("no place for the length");
			return;
		}
		VP_CHECK(!threw, "serialising %s failed: %s", d.show().c_str(), why.c_str());
		ends.push_back(oss.str().size());
	}
	string all = oss.str();
	c.note("text %s", vp::quote(all, 3000).c_str());
	// layout
	size_t start = 0;
	std::vector<Val> headers;
	bool plain = true;
	for (size_t i = 0; i < docs.size(); ++i) {
		Doc &d = docs[i];
		size_t plen = d.has && !d.ignore ? d.blob.s.size() : 0;
		string t = all.substr(start, ends[i] - start);
		size_t at = ends[i] - plen;
		VP_CHECK(ends[i] >= start + plen && at > start, "output shorter than the payload");
		VP_CHECK(all.substr(at, plen) == d.blob.s.substr(0, plen), "the output does not end with the payload bytes: %s", vp::quote(t, 1500).c_str());
		VP_CHECK(all[at - 1] == 0, "no zero byte before the payload: %s", vp::quote(t, 1500).c_str());
		VP_CHECK(all.find('\0', start) == at - 1, "a zero byte inside the header: %s", vp::quote(t, 1500).c_str());
		VP_CHECK(at % 32 == 0, "payload at offset %zu, not a multiple of 32", at);
		headers.push_back(through(d.expect, f, fparams));
		Val h = from_variant(Deserialize(all.substr(start, at - 1 - start), f));
		VP_CHECK(val_same(h, headers[i]), "header reads as %s, expected %s: %s", val_str(h).c_str(), val_str(headers[i]).c_str(), vp::quote(t, 1500).c_str());
		if (plen != d.announced) plain = false;
		start = ends[i];
	}
	c.evals(docs.size());
	if (docs[0].announced) c.nontrivial(vp::hash64(all));
	if (!plain) {        // the announced length is not what follows
		c.label("length overridden");
		Doc &d = docs[0];
		size_t plen = d.has && !d.ignore ? d.blob.s.size() : 0;
		bool threw = false;
		if (docs.size() == 1 && d.announced > plen) {
			std::unique_ptr<char[]> blk(new char[all.size()]);
			memcpy(blk.get(), all.data(), all.size());
			try { DeserializeWithPayload(blk.get(), all.size(), f, d.params); } catch (const std::exception &) { threw = true; }
			VP_CHECK(threw, "%llu payload bytes announced, %zu present, no error", (unsigned long long)d.announced, plen);
		}
		return;
	}
	// reading back
	shared_ptr<WindowIn> win(new WindowIn(all));
	do win->sizes.push_back(1 + c.pick(c.coin() ? 6 : 6000)); while (c.more(2));
	std::unique_ptr<char[]> blk(new char[all.size()]);
	memcpy(blk.get(), all.data(), all.size());
	std::istringstream iss(all);
	shared_ptr<ParserInput> in;
	unsigned kind = c.pick(3);
	static const char *kinds[] = {"from memory", "from an input in pieces", "from a stream buffer"};
	if (kind == 0) in = CreateParserInput(blk.get(), all.size());
	if (kind == 1) in = win;
	if (kind == 2) in = CreateParserInputFile(iss.rdbuf());
	bool safe = kind != 0 || c.coin();
	std::vector<Variant> got;
	for (size_t i = 0; i < docs.size(); ++i) {
		try { got.push_back(DeserializeWithPayload(in, f, docs[i].params, safe)); }
		catch (const std::exception &e) { vp::fail(vp::fmt("document %zu cannot be read %s: %s (text %s)", i, kinds[kind], e.what(), vp::quote(all, 1500).c_str())); }
		if (kind == 1) VP_CHECK(win->pos == ends[i], "document %zu ends at byte %zu, reading stopped at %zu: %s", i, ends[i], win->pos, vp::quote(all, 1500).c_str());
	}
	unsigned left = 1;
	if (in->GetPtr(left) == 0) left = 0;
	VP_CHECK(left == 0, "%u bytes left after the last document", left);
	if (safe) memset(blk.get(), 'Z', all.size());
	for (size_t i = 0; i < docs.size(); ++i) check_read(docs[i], headers[i], got[i], kinds[kind], all);
	c.label(kinds[kind]);
	c.evals(docs.size());
	if (docs.size() > 1) { c.label("several documents"); return; }
	Doc &d = docs[0];
	// every other way to write gives the same bytes
	{
		Variant v = to_variant(d.full);
		string w;
		bool bundle = f == SERIALIZE_BUNDLEHDR && d.params.Empty() && c.coin();
		if (bundle) {        // the functions for bundles
			c.label("bundle functions");
			string name = vp::scratch() + "/bundle";
			std::istringstream is(all);
			FILE *fp;
			switch (c.pick(4)) {
			case 0: w = SerializeBundle(v); check_read(d, headers[0], DeserializeBundle(all), "from a bundle string", all); break;
			case 1: {
				std::unique_ptr<char[]> o(new char[all.size()]);
				unsigned n = SerializeBundle(o.get(), all.size(), v);
				w.assign(o.get(), n);
				check_read(d, headers[0], c.coin() ? DeserializeBundle(o.get(), n) : DeserializeBundle(o.get(), n, false), "from a bundle in memory", all);
				break;
			}
			case 2: {
				std::stringbuf sb;
				SerializeBundle(&sb, v);
				w = sb.str();
				check_read(d, headers[0], DeserializeBundleFile(is.rdbuf()), "from a bundle stream", all);
				break;
			}
			default: {
				if (c.coin()) SerializeBundle(name, v);
				else { fp = fopen(name.c_str(), "w"); SerializeBundle(fp, v); fclose(fp); }
				check_read(d, headers[0], DeserializeBundleFile(name.c_str()), "from a bundle file name", all);
				fp = fopen(name.c_str(), "r");
				check_read(d, headers[0], DeserializeBundleFile(fp), "from a bundle FILE", all);
				rewind(fp);
				char tmp[4096];
				size_t n;
				while ((n = fread(tmp, 1, sizeof(tmp), fp)) > 0) w.append(tmp, n);
				fclose(fp);
				unlink(name.c_str());
			}
			}
		} else switch (c.pick(4)) {
		case 0: w = SerializeWithPayload(v, f, d.params); break;
		case 1: {
			std::unique_ptr<char[]> o(new char[all.size()]);
			unsigned n = SerializeWithPayload(o.get(), all.size(), v, f, d.params);
			w.assign(o.get(), n);
			break;
		}
		case 2: {
			string name = vp::scratch() + "/payload";
			SerializeWithPayload(name, v, f, d.params);
			Variant b = DeserializeWithPayloadFile(name.c_str(), f, d.params);
			check_read(d, headers[0], b, "from a file name", all);
			FILE *fp = fopen(name.c_str(), "r");
			Variant b2 = DeserializeWithPayloadFile(fp, f, d.params);
			check_read(d, headers[0], b2, "from a FILE", all);
			rewind(fp);
			char tmp[4096];
			size_t n;
			while ((n = fread(tmp, 1, sizeof(tmp), fp)) > 0) w.append(tmp, n);
			fclose(fp);
			unlink(name.c_str());
			break;
		}
		default: {
			char *p = 0;
			size_t n = 0;
			FILE *fp = open_memstream(&p, &n);
			SerializeWithPayload(fp, v, f, d.params);
			fclose(fp);
			w.assign(p, n);
			free(p);
		}
		}
		VP_CHECK(w == all, "another kind of output gave %s, not %s", vp::quote(w, 1200).c_str(), vp::quote(all, 1200).c_str());
		check_read(d, headers[0], DeserializeWithPayload(all, f, d.params), "from a string", all);
	}
	// cut short
	for (unsigned k = 0; k < 4; ++k) {
		size_t plen = d.announced, head = all.size() - plen;
		size_t n = k == 0 && plen ? head + c.pick(plen) : c.pick(all.size());
		std::unique_ptr<char[]> cut(new char[n]);
		memcpy(cut.get(), all.data(), n);
		bool ok = false;
		Variant v;
		try {
			if (c.coin()) v = DeserializeWithPayload(cut.get(), n, f, d.params);
			else { string s(cut.get(), n); std::istringstream is(s); v = DeserializeWithPayloadFile(is.rdbuf(), f, d.params); }
			ok = true;
		} catch (const std::exception &) {}
		if (plen && n >= head) VP_CHECK(!ok, "cut at byte %zu of %zu (payload starts at %zu) and read without error as %s", n, all.size(), head, val_str(from_variant(v)).c_str());
		else if (ok) {       // a header may end early, but no payload may be made up
			CellP g = cell(from_variant(v));
			CellP x = m_lookup(g, d.dpath);
			VP_CHECK(!x || x->v.s.t != Val::Blob || x->v.s.s.empty(), "header cut at byte %zu of %zu, yet a payload was read: %s", n, all.size(), val_str(from_variant(v)).c_str());
			if (d.announced) {
				CellP y = m_lookup(g, d.lpath);
				bool full = y && y->v.s.isnum() && num_cmp(y->v.s, Val::uinteger(0)) > 0;
				VP_CHECK(!full, "payload announced but missing, no error");
			}
		}
		c.evals(1);
	}
}

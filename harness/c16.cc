// C16: streams of documents.
#include "val.h"
#include "texts.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <stdio.h>
#include <string.h>
#include <sstream>
#include <memory>
#include <algorithm>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the stream has at least two documents";

class WindowIn : public ParserInput {       // hands out a private, exactly sized copy of growing windows
public:
	const string &t;
	std::vector<unsigned> sizes;
	std::unique_ptr<char[]> win;
	size_t pos = 0, have = 0, turn = 0;
	WindowIn(const string &x) : t(x) {}
	const void *GetPtr(unsigned &len) {
		size_t left = t.size() - pos, want = len > 0 ? len : 1;
		while (have < want && have < left) have = std::min(left, have + sizes[turn++ % sizes.size()]);
		len = have;
		if (!have) return 0;
		win.reset(new char[have]);
		memcpy(win.get(), t.data() + pos, have);
		return win.get();
	}
	void Release(unsigned len) {
		if (len > have) vp::fail("released more than was handed out");
		have -= len; pos += len;
	}
};
static string docs_str(const std::vector<Val> &d) {
	string s;
	for (auto &v : d) s += "\n  " + val_str(v);
	return s;
}
static void compare(const std::vector<Val> &want, const std::vector<Val> &got, const char *how, const string &text) {
	VP_CHECK(want.size() == got.size(), "%zu documents written, %zu read by %s, from %s\nwritten:%s\nread:%s", want.size(), got.size(), how, vp::quote(text, 1500).c_str(),
		docs_str(want).c_str(), docs_str(got).c_str());
	for (size_t i = 0; i < want.size(); ++i)
		VP_CHECK(val_equal_roundtrip(want[i], got[i], false), "document %zu read by %s is %s, not %s, from %s", i, how, val_str(got[i]).c_str(), val_str(want[i]).c_str(), vp::quote(text, 1500).c_str());
}
static Val doc(Ctx &c, bool root_scalar) {
	GenOpt o;
	o.blobs = c.chance(1, 5); o.big = c.chance(1, 20); o.longstr = c.chance(1, 5); o.maxdepth = 3;
	if (!root_scalar) return gen_container(c, o);
	switch (c.weighted({3, 2, 2, 4, 1, 1})) {
	case 0: return Val::null();
	case 1: return Val::str("");
	case 2: return gen_scalar(c, o);
	case 3: return gen_container(c, o);
	case 4: return Val::list();
	default: return Val::map();
	}
}
static std::vector<unsigned> piece_sizes(Ctx &c) {
	std::vector<unsigned> r;
	do r.push_back(1 + c.pick(c.coin() ? 5 : 5000)); while (c.more(2));
	return r;
}
static std::vector<Val> iterate(Ctx &c, LoadAllIterator it, const std::vector<Val> &want) {
	LoadAllIterator end, first = it, mid;
	std::vector<Val> got;
	size_t cap = want.size() + 3, mid_at = c.pick(want.size() + 1);
	bool post = c.coin(), have_mid = false;
	std::vector<LoadAllIterator> kept;
	while (it != end && got.size() < cap) {
		if (got.size() == mid_at) { mid = it; have_mid = true; }
		got.push_back(from_variant(*it));
		VP_CHECK(it == it && !(it != it), "iterator differs from itself");
		if (got.size() > 1) VP_CHECK(it != first && !(it == first), "iterators at documents 1 and %zu are equal", got.size());
		if (post) { LoadAllIterator old = it++; VP_CHECK(val_same(from_variant(*old), got.back()), "it++ returned something else"); }
		else ++it;
	}
	if (got.size() < cap) {
		VP_CHECK(it == end, "not at the end");
		it.Next();
		VP_CHECK(it == end, "advancing at the end left the end");
		bool threw = false;
		try { it.Get(); } catch (const std::exception &) { threw = true; }
		VP_CHECK(threw, "reading past the end did not raise an error");
		// a kept iterator goes over the same documents again
		size_t i = 0;
		for (; first != end && i < got.size(); ++first, ++i) VP_CHECK(val_same(from_variant(*first), got[i]), "second pass differs at %zu", i);
		VP_CHECK(i == got.size() && first == end, "second pass has a different length");
		if (have_mid) {
			size_t k = mid_at;
			for (; mid != end && k < got.size(); ++mid, ++k) VP_CHECK(val_same(from_variant(*mid), got[k]), "pass from the middle differs at %zu", k);
			VP_CHECK(k == got.size() && mid == end, "pass from the middle has a different length");
		}
	}
	return got;
}
static std::vector<Val> repeat(Parser p, size_t cap) {
	std::vector<Val> got;
	while (got.size() < cap) {
		Variant v = ParseVariant(p);
		if (p.Done()) { VP_CHECK(v.IsNull(), "the end of the stream came with a value"); break; }
		got.push_back(from_variant(v));
	}
	if (got.size() < cap) { Variant v = ParseVariant(p); VP_CHECK(v.IsNull() && p.Done(), "parsing at the end gave a value"); }
	return got;
}

// a document that names its values and repeats them by name; a name given again stands for the later value
static string anchored(Ctx &c, Val &v) {
	static const char *const names[] = {"a", "b", "a1"};
	static const char *const texts[] = {"1", "[2, 3]", "{k: x}", "''", "\"two\"", "[]", "~"};
	Val l = Val::list(), m = Val::map(), x[7];
	l.l.push_back(Val::integer(2)); l.l.push_back(Val::integer(3));
	m.m["k"] = Val::str("x");
	x[0] = Val::integer(1); x[1] = l; x[2] = m; x[3] = Val::str(""); x[4] = Val::str("two"); x[5] = Val::list(); x[6] = Val::null();
	std::map<string, Val> known;
	bool flow = c.coin(), keyed = c.coin();
	string t = flow ? string("--- ") + (keyed ? "{" : "[") : "---\n";
	v = keyed ? Val::map() : Val::list();
	unsigned n = 0;
	do {
		string item, nm = names[c.pick(3)];
		Val e;
		if (known.count(nm) && c.coin()) { item = "*" + nm; e = known[nm]; }
		else {
			unsigned k = c.pick(7);
			item = texts[k]; e = x[k];
			if (c.chance(3, 4)) { item = "&" + nm + " " + item; known[nm] = e; }
		}
		string key = vp::fmt("k%u", n);
		if (flow) t += (n ? ", " : "") + (keyed ? key + ": " : string()) + item;
		else t += (keyed ? key + ": " : string("- ")) + item + "\n";
		if (keyed) v.m[key] = e; else v.l.push_back(e);
	} while (++n < 8 && c.chance(3, 4));
	if (flow) t += keyed ? " }\n" : " ]\n";
	c.label("repeats values by name");
	return t;
}
static void yaml(Ctx &c) {
	std::vector<Val> want;
	unsigned n = 0;
	while (n++ < 9 && c.more(4)) want.push_back(doc(c, true));
	string t;
	if (c.coin()) {                      // one emitter
		Variant params = gen_params(c, SERIALIZE_YAML);
		std::ostringstream oss;
		Emitter e = CreateEmitter(CreateEmitterOutput(oss.rdbuf()), SERIALIZE_YAML, params);
		for (auto &v : want) {
			e.BeginDocument();
			e << to_variant(v);
			e.EndDocument();
			if (c.chance(1, 4)) e.Flush();
		}
		e.Close();
		t = oss.str();
		c.label("one emitter");
		if (!params.IsNull() && params.IsMap() && params.Contains("precision") && params["precision"].AsInt() < 17) throw vp::Discard();
	} else {                             // concatenated texts
		c.label("concatenated");
		for (size_t i = 0; i < want.size(); ++i) {
			static const char *junk[] = {"\n", "# note\n", "   \n", "# --- not a document\n"};
			while (c.chance(1, 5)) t += junk[c.pick(4)];
			if (want[i].t == Val::Str && want[i].s.empty() && c.coin()) { t += c.coin() ? "---\n" : "--- # nothing\n"; continue; }
			if (want[i].t == Val::Null && c.coin()) { t += "--- ~\n"; continue; }
			if ((want[i].t == Val::List || want[i].t == Val::Map) && c.chance(1, 4)) { t += anchored(c, want[i]); continue; }
			Variant params;
			if (c.chance(1, 3)) { params = VariantDefines::MapType; params["implicit_document_end"] = true; }
			t += Serialize(to_variant(want[i]), SERIALIZE_YAML, params);
			if (t.size() && t[t.size() - 1] != '\n') t += "\n";
			if (c.chance(1, 6)) t += "...\n";
		}
		if (c.chance(1, 6)) t += "# end\n";
		if (c.chance(1, 6) && t.size() > 1 && t[t.size() - 1] == '\n' && want.size() && want.back().t != Val::Str) t.resize(t.size() - 1);
	}
	c.note("documents:%s\ntext %s", docs_str(want).c_str(), vp::quote(t, 3000).c_str());
	c.label(vp::fmt("yaml %zu", std::min<size_t>(want.size(), 5)));
	std::unique_ptr<char[]> blk(new char[t.size() + 1]);
	memcpy(blk.get(), t.data(), t.size());
	shared_ptr<WindowIn> in(new WindowIn(t));
	in->sizes = piece_sizes(c);
	std::vector<Val> got;
	const char *how = "";
	size_t text_at = t.find_first_not_of(" \n\t\r");
	bool like_xml = text_at != string::npos && t[text_at] == '<';
	bool named = c.coin();       // by the functions named after the format
	switch (c.pick(like_xml ? 6 : 7)) {
	case 0: got = iterate(c, named ? DeserializeYAMLAll((const void *)blk.get(), t.size()) : DeserializeAll((const void *)blk.get(), t.size(), SERIALIZE_YAML), want); how = "iterating over memory"; break;
	case 1: got = iterate(c, named ? (t.find('\0') == string::npos && c.coin() ? DeserializeYAMLAll(t.c_str()) : DeserializeYAMLAll(t)) : DeserializeAll(t, SERIALIZE_YAML), want); how = "iterating over a string"; break;
	case 2: { Parser p = CreateParser(in, SERIALIZE_YAML); got = iterate(c, LoadAllIterator(p), want); how = "iterating over an input in pieces"; break; }
	case 3: { std::istringstream iss(t); got = iterate(c, named ? DeserializeYAMLAllFile(iss.rdbuf()) : DeserializeAllFile(iss.rdbuf(), SERIALIZE_YAML), want); how = "iterating over a stream buffer"; break; }
	case 4: {
		FILE *f = fmemopen(blk.get(), t.size() ? t.size() : 1, "r");
		if (t.empty()) fgetc(f);
		got = iterate(c, named ? DeserializeYAMLAllFile(f) : DeserializeAllFile(f, SERIALIZE_YAML), want);
		fclose(f);
		how = "iterating over a FILE";
		break;
	}
	case 5: got = repeat(CreateParser(in, SERIALIZE_YAML), want.size() + 3); how = "parsing again and again"; break;
	default: { Parser p = CreateParserGuess(in); got = iterate(c, LoadAllIterator(p), want); how = "iterating with a guessing parser"; }
	}
	c.label(how);
	compare(want, got, how, t);
	c.evals(1);
	if (want.size() >= 2) c.nontrivial(vp::hash64(t));
}

static void json(Ctx &c) {
	std::vector<Val> want;
	unsigned n = 0;
	do want.push_back(doc(c, false)); while (n++ < 9 && c.more(4));
	string t;
	std::vector<size_t> ends;
	static const char *sep[] = {"", "\n", " ", "\t \r\n", "/* between */", "\n\n"};
	if (c.coin()) {
		std::ostringstream oss;
		Emitter e = CreateEmitter(CreateEmitterOutput(oss.rdbuf()), SERIALIZE_JSON, gen_params(c, SERIALIZE_JSON));
		for (auto &v : want) {
			e.BeginDocument();
			e << to_variant(v);
			e.EndDocument();
			if (c.coin()) { e.Flush(); }
			e.Flush();
			ends.push_back(oss.str().size());
		}
		e.Close();
		t = oss.str();
		c.label("one emitter");
	} else {
		c.label("concatenated");
		for (auto &v : want) { t += sep[c.pick(6)]; t += Serialize(to_variant(v), SERIALIZE_JSON); ends.push_back(t.size()); }
	}
	string tail = c.coin() ? "" : c.coin() ? "x" : " tail }";
	t += tail;
	c.note("documents:%s\ntext %s", docs_str(want).c_str(), vp::quote(t, 3000).c_str());
	c.label(vp::fmt("json %zu", std::min<size_t>(want.size(), 5)));
	shared_ptr<WindowIn> win(new WindowIn(t));
	win->sizes = piece_sizes(c);
	std::istringstream iss(t);
	shared_ptr<ParserInput> in = win;
	unsigned kind = c.pick(3);
	if (kind == 1) in = CreateParserInput(t.data(), t.size());
	if (kind == 2) in = CreateParserInputFile(iss.rdbuf());
	bool reset = c.coin();
	Parser keep;
	std::vector<Val> got;
	for (size_t i = 0; i < want.size(); ++i) {
		Variant v;
		if (reset) {
			if (i == 0) keep = CreateParser(in, SERIALIZE_JSON); else keep.Reset();
			v = ParseVariant(keep);
			VP_CHECK(keep.Done(), "parser not done after a document");
			Variant again = ParseVariant(keep);
			VP_CHECK(again.IsNull(), "parsing after the end of the document gave a value");
		} else {
			Parser p = CreateParser(in, SERIALIZE_JSON);
			v = ParseVariant(p);
		}
		got.push_back(from_variant(v));
		if (kind == 0) VP_CHECK(win->pos == ends[i], "document %zu ends at byte %zu, the parser stopped at byte %zu of %s", i, ends[i], win->pos, vp::quote(t, 1500).c_str());
	}
	for (auto &v : want) (void)v;
	VP_CHECK(want.size() == got.size(), "count");
	for (size_t i = 0; i < want.size(); ++i)
		VP_CHECK(val_equal_roundtrip(want[i], got[i], true), "document %zu read as %s, not %s, from %s", i, val_str(got[i]).c_str(), val_str(want[i]).c_str(), vp::quote(t, 1500).c_str());
	// what follows is still there
	unsigned len = tail.size() ? tail.size() : 1;
	const char *p = (const char *)in->GetPtr(len);
	string rest = p ? string(p, len) : "";
	VP_CHECK(rest == tail, "after the last document %s is left, not %s", vp::quote(rest).c_str(), vp::quote(tail).c_str());
	c.evals(got.size());
	if (want.size() >= 2) c.nontrivial(vp::hash64(t));
}

// formats that hold one document: iterating gives exactly that one
static void single(Ctx &c) {
	static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	SerializeType f = fs[c.pick(3)];
	string t = Serialize(to_variant(gen_val_for(c, f)), f);
	Val ref = from_variant(Deserialize(t, f));
	c.note("format %s text %s", format_name(f), vp::quote(t, 2000).c_str());
	LoadAllIterator it = DeserializeAll(t, f), end;
	VP_CHECK(it != end, "no document");
	VP_CHECK(val_same(from_variant(*it), ref), "iterating over %s gives %s, parsing gives %s", vp::quote(t, 1500).c_str(), val_str(from_variant(*it)).c_str(), val_str(ref).c_str());
	++it;
	VP_CHECK(it == end, "a second document after the only one: %s", val_str(from_variant(*it)).c_str());
	c.label("single");
	c.evals(1);
}
void vp_case(Ctx &c) {
	switch (c.weighted({6, 4, 1})) {
	case 0: yaml(c); break;
	case 1: json(c); break;
	default: single(c);
	}
}

// C34: allocations that fail.
// Every allocation through operator new made inside a library call is a place
// where the call can be told that there is no memory left.
#include "texts.h"
#include "refschema.h"
#include "refpatch.h"
#include <Variant/Schema.h>
#include <Variant/Extensions.h>
#include <Variant/Parser.h>
#include <Variant/Emitter.h>
#include <Variant/Payload.h>
#include <Variant/Path.h>
#include <Variant/ArgParse.h>
#include <set>
#include <new>
#include <sstream>
#include <stdlib.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
using std::vector;
const char *vp_rule = "at least one allocation failed inside a call that had made at least one before, on a document with a container";

// ---- the allocator -------------------------------------------------------------
static bool armed, sticky;
static size_t seen, fail_at, failed;
static inline bool refuse() {
	if (!armed) return false;
	++seen;
	if (seen == fail_at || (sticky && fail_at && seen > fail_at)) { ++failed; return true; }
	return false;
}
void *operator new(size_t n) { if (refuse()) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { if (refuse()) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return refuse() ? 0 : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return refuse() ? 0 : malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
struct Arm {
	Arm(size_t at, bool all) { seen = 0; failed = 0; fail_at = at; sticky = all; armed = true; }
	~Arm() { armed = false; }
};

// ---- the calls -----------------------------------------------------------------
enum Kind { PARSE, PARSE_ALL, WRITE, EVENTS, COPY, PATCH, DIFF, VALIDATE, DEFAULTS, UPDATE, FLATTEN, PATHS, POINTERS, ELEMENTS, PAYLOAD, UNPAYLOAD, CONVERT, LOADER, BLOBS, ARGS, TYPED, KINDS };
static const char *const names[] = {"parse", "parse all", "write", "events", "copy", "patch", "diff", "validate", "defaults", "update", "flatten", "paths", "pointers", "elements", "write payload", "read payload", "convert", "loader", "blobs", "arguments", "typed"};
static const SerializeType formats[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR, SERIALIZE_GUESS};
struct Job { Kind k; SerializeType f; string text; Val a, b; Variant params; unsigned n; string path; };
// what a call works on; a is changed by the calls that change, b never is
struct State { Variant a, b, params, out; string text; };

struct Quiet : public ParserActions {
	void Null(ParserImpl *, const char *, const char *) {}
	void Scalar(ParserImpl *, bool, const char *, const char *) {}
	void Scalar(ParserImpl *, intmax_t, const char *, const char *) {}
	void Scalar(ParserImpl *, uintmax_t, const char *, const char *) {}
	void Scalar(ParserImpl *, double, const char *, const char *) {}
	void Scalar(ParserImpl *, const char *, unsigned, const char *, const char *) {}
	void Scalar(ParserImpl *, BlobPtr, const char *, const char *) {}
	void Alias(ParserImpl *, const char *) {}
	void BeginList(ParserImpl *, int, const char *, const char *) {}
	void EndList(ParserImpl *) {}
	void BeginMap(ParserImpl *, int, const char *, const char *) {}
	void EndMap(ParserImpl *) {}
	void BeginDocument(ParserImpl *) {}
	void EndDocument(ParserImpl *) {}
};
// memory given to blobs, each piece to be released once
static std::multiset<void *> *given;
static unsigned wrong_release;
static void take_back(void *p, void *ctx) {
	bool was = armed;
	armed = false;
	auto i = given->find(p);
	if (i == given->end() || ctx != (void *)&given) ++wrong_release; else given->erase(i);
	armed = was;
}
static void perform(const Job &j, State &s) {
	switch (j.k) {
	case PARSE: s.out = Deserialize(j.text, j.f); break;
	case PARSE_ALL: { unsigned n = 0; for (LoadAllIterator i = DeserializeAll(j.text, j.f), e; i != e && n < 20; ++i, ++n) s.out = *i; break; }
	case WRITE: s.text = Serialize(s.b, j.f, s.params); break;
	case EVENTS: {
		Parser p = CreateParser(CreateParserInput(j.text), j.f);
		p.PushAction(shared_ptr<ParserActions>(new Quiet));
		for (unsigned i = 0; i < 100000 && p.Run() == 0; ++i) {}
		break; }
	case COPY: s.out = s.b.Copy(); s.out.Compare(s.b); break;
	case PATCH: JSONPatch(s.a, s.b); break;
	case DIFF: s.out = JSONDiff(s.b, s.params); break;
	case VALIDATE: { SchemaResult r = SchemaValidate(s.b, s.params); if (r.Error()) s.text = r.PrettyPrintMessage(); break; }
	case DEFAULTS: AddSchemaDefaults(s.b, s.a); break;
	case UPDATE: if (j.n & 1) RUpdate(s.a, s.b); else s.out = RDiff(s.a, s.b); break;
	case FLATTEN: s.out = FlattenPath(s.b); if (j.n & 1) s.out = ExpandPath(s.out); break;
	case PATHS:
		switch (j.n % 4) {
		case 0: s.a.SetPath(j.path, s.b); break;
		case 1: s.out = s.a.GetPath(j.path, 5); break;
		case 2: s.a.ErasePath(j.path, true); break;
		default: s.a.HasPath(j.path); s.text = PathString(ParsePath(j.path)); break;
		}
		break;
	case POINTERS:
		switch (j.n % 5) {
		case 0: JSONPointerAdd(j.path, s.a, s.b); break;
		case 1: JSONPointerRemove(j.path, s.a); break;
		case 2: JSONPointerReplace(j.path, s.a, s.b); break;
		case 3: JSONPointerMove(j.path, "/moved", s.a); break;
		default: s.out = JSONPointerLookup(j.path, s.a); break;
		}
		break;
	case ELEMENTS:
		if (s.a.IsMap()) {
			switch (j.n % 4) {
			case 0: s.a["new"]["below"] = s.b; break;
			case 1: s.a.Set("new", s.b); break;
			case 2: s.a["list"].Append(s.b); s.a["list"].Append("a text that is longer than a short one"); break;
			default: s.a.Erase("new"); s.a["x"] = "a text that is longer than a short one"; break;
			}
		} else if (s.a.IsList()) {
			switch (j.n % 4) {
			case 0: s.a.Append(s.b); break;
			case 1: s.a.AsList().insert(s.a.AsList().begin(), s.b); break;
			case 2: s.a.At((int)s.a.Size()) = s.b; s.a.Append("a text that is longer than a short one"); break;
			default: if (!s.a.Empty()) s.a[0u] = "a text that is longer than a short one"; s.a.Append(s.b); break;
			}
		} else s.a.Assign(s.b);
		break;
	case PAYLOAD: s.text = SerializeWithPayload(s.b, j.f); break;
	case UNPAYLOAD: s.out = DeserializeWithPayload(j.text, j.f); break;
	case CONVERT: s.text = s.b.AsString(); s.b.AsInt(); break;
	case LOADER: { SchemaLoader l; l.AddSchema("http://h/x.json", s.b); s.out = l.GetSchema("http://h/x.json#/definitions"); s.text = SchemaLoader::ResolveURI("http://h/a/b", j.path); break; }
	case BLOBS: {
		static char mem[8][4];
		struct iovec iov[8];
		unsigned n = 1 + j.n % 8;
		for (unsigned i = 0; i < n; ++i) { iov[i].iov_base = mem[i]; iov[i].iov_len = 1 + i % 4; }
		armed = false;
		for (unsigned i = 0; i < n; ++i) given->insert(mem[i]);
		armed = true;
		Variant v(Blob::Create(iov, n, take_back, (void *)&given));
		Variant w = v.Copy(), m;
		m["blob"] = v;
		m["copy"] = w;
		break; }
	case ARGS: {
		ArgParse p("prog", false);
		p.AddOption("count", 'c', "count", "how often it is to be done").Type(ARGTYPE_INT).Minimum(0).Maximum(100);
		p.AddOption("a/list", 'l', "list").Action(ARGACTION_APPEND).Default(s.b);
		p.AddFlag("flag", 'f');
		p.AddArgument("name").Type(ARGTYPE_STRING);
		// (parsing itself reports errors by leaving the program)
		p.Validate();
		if (j.n & 1) { ArgParse q("other", false); q.Merge(p.GetDescription()); s.out = q.GetDescription(); }
		else s.out = p.GenerateSchema();
		break; }
	case TYPED: {
		std::map<string, vector<string>> m;
		vector<string> v(3, "a text that is longer than a short one");
		m["a"] = v; m["b"] = v;
		s.out = m;
		m = variant_cast<std::map<string, vector<string>>>(s.out);
		s.out["a"].GetInto(v[0], "none", string("a default that is longer than a short text"));
		break; }
	default: break;
	}
}
static bool reads_only(Kind k) { return k != PATCH && k != DEFAULTS && k != UPDATE && k != PATHS && k != POINTERS && k != ELEMENTS; }

void vp_case(Ctx &c) {
	Job j;
	j.k = (Kind)c.weighted({8, 2, 6, 3, 3, 4, 3, 4, 2, 3, 3, 4, 4, 4, 3, 3, 1, 2, 1, 2, 1});
	j.n = c.pick(20);
	GenOpt g;
	g.maxdepth = 3;
	g.big = false;
	j.f = formats[c.weighted({4, 4, 3, 2, j.k == PARSE || j.k == PARSE_ALL ? 1u : 0u})];
	switch (j.k) {
	case PARSE: case PARSE_ALL: case EVENTS:
		j.text = gen_format_text(c, j.f, false);
		if (c.chance(1, 4)) damage_text(c, j.text, j.f);
		break;
	case WRITE: j.b = gen_val_for(c, j.f); j.params = gen_params(c, j.f); break;
	case PATCH: { Val x = gen_patch_doc(c), y = gen_patch_doc(c); j.a = x; j.b = from_variant(JSONDiff(to_variant(x), to_variant(y))); break; }
	case DIFF: j.b = gen_patch_doc(c); j.a = gen_patch_doc(c); j.params = to_variant(j.a); break;
	case VALIDATE: case DEFAULTS: { SchemaGen sg; sg.maxdepth = 3; j.b = gen_schema(c, sg); j.a = gen_instance(c, j.b); if (j.k == VALIDATE) j.params = to_variant(j.a); break; }
	case PAYLOAD: case UNPAYLOAD: {
		j.f = formats[c.pick(3)];
		GenOpt o = g; o.blobs = false; o.text = TK_ASCII;
		j.b = gen_map(c, o);
		Val p = Val::map(); p.m["data"] = Val::blob(gen_bytes(c, 40)); j.b.m["payload"] = p;
		if (j.k == UNPAYLOAD) { try { j.text = SerializeWithPayload(to_variant(j.b), j.f); } catch (const std::exception &) {} if (c.chance(1, 6) && !j.text.empty()) j.text.resize(c.pick(j.text.size())); }
		break; }
	case CONVERT: j.b = gen_scalar(c, g); break;
	case LOADER: { SchemaGen sg; sg.maxdepth = 2; j.b = gen_schema(c, sg); j.path = "c/../d#x"; break; }
	default: j.a = gen_container(c, g); j.b = gen_val(c, g); break;
	}
	if (j.k == FLATTEN && c.coin()) j.b = j.a;
	if (j.k == PATHS) { static const char *const p[] = {"a/b", "a", "x/y/z", "[0]", "a[1]/b", "new key with a long text/below"}; j.path = p[c.pick(6)]; }
	if (j.k == POINTERS) { static const char *const p[] = {"/a", "/a/b", "/-", "/0", "/a~1b", "/new key with a long text", ""}; j.path = p[c.pick(7)]; }
	c.note("%s %s n=%u path %s", names[j.k], format_name(j.f), j.n, j.path.c_str());
	if (!j.text.empty()) c.note("text %s", vp::quote(j.text).c_str());
	c.note("a %s", val_str(j.a).c_str());
	c.note("b %s", val_str(j.b).c_str());
	// how much memory it takes
	size_t total;
	bool whole = true;
	Val wa, wout; string wtext, why;
	auto observe = [&](size_t at, bool all, bool &ok) {
		State s;
		s.a = to_variant(j.a); s.b = to_variant(j.b); s.params = j.params.Copy();
		Variant hold = s.a;
		std::multiset<void *> mine;
		given = &mine;
		wrong_release = 0;
		ok = true;
		{
			Arm arm(at, all);
			try { perform(j, s); } catch (const std::exception &) { ok = false; }
		}
		VP_CHECK(mine.empty() && !wrong_release, "of the memory given to a blob %zu pieces are not released, %u released wrongly", mine.size(), wrong_release);
		// everything can still be read and taken down
		Val a = from_variant(s.a), b = from_variant(s.b), out = from_variant(s.out);
		if (reads_only(j.k)) VP_CHECK(val_same(a, j.a), "the document changed: %s", val_diff(j.a, a).c_str());
		VP_CHECK(val_same(b, j.b), "the argument changed: %s", val_diff(j.b, b).c_str());
		VP_CHECK(val_same(from_variant(s.params), from_variant(j.params)), "the second argument changed");
		if (!at) { wa = a; wout = out; wtext = s.text; }
		return std::make_pair(a, out);
	};
	observe(0, false, whole);
	total = seen;
	if (!total) { c.label("no allocation"); return; }
	unsigned tries = c.thorough ? 12 : 6;
	for (unsigned i = 0; i < tries; ++i) {
		size_t at = 1 + (total <= tries ? i % total : c.pick(total));
		bool all = c.chance(1, 3), ok;
		c.note("allocation %zu of %zu fails%s", at, total, all ? ", and all later ones" : "");
		observe(at, all, ok);
		c.evals(1);
		if (failed && at > 1 && (j.a.t >= Val::List || j.b.t >= Val::List || j.text.size() > 4)) c.nontrivial(vp::hashmix(vp::hashmix(val_hash(j.a), val_hash(j.b)), vp::hash64(j.text) + j.k * 7 + j.n));
		if (c.chance(1, 4)) vp::leak_check([&] { bool x; observe(at, all, x); }, "a call that runs out of memory");
	}
	// and nothing lasts
	Val a0 = wa, o0 = wout; string t0 = wtext; bool w0 = whole;
	observe(0, false, whole);
	VP_CHECK(whole == w0 && val_same(wa, a0) && val_same(wout, o0) && wtext == t0, "the call gives another result after others ran out of memory");
	c.evals(1);
	c.label(names[j.k]);
}

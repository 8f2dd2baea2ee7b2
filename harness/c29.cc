// C29: threads on their own data, and threads reading common data.
// Built with ThreadSanitizer: a data race ends the case as a violation.
#include "texts.h"
#include "refschema.h"
#include <Variant/Schema.h>
#include <Variant/Extensions.h>
#include <Variant/Parser.h>
#include <Variant/Emitter.h>
#include <Variant/ArgParse.h>
#include <thread>
#include <atomic>
#include <fstream>
#include <sstream>
#include <typeinfo>
#include <sched.h>
#include <stdio.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "at least two threads ran, and two of them used the same kind of operation or the common document";

enum Kind {
	K_BUILD, K_SERIALIZE, K_PARSE, K_VALIDATE, K_DEFAULTS, K_PATCH, K_POINTER, K_PATH, K_RUPDATE, K_FLATTEN,
	K_COMPARE, K_BLOB, K_CONVERT, K_FILE, K_LOADER, K_URI, K_ARGS, K_EVENTS, K_PAYLOAD, K_SCHEMAFILE,
	OWN,
	S_READ = OWN, S_COPY, S_HANDLES, S_SERIALIZE, S_COMPARE, S_VALIDATE, S_PATH, S_ITER, S_BLOB, S_DIFF, S_UPDATE_FROM, S_DEFAULTS, S_PATCH, S_PARAMS, S_FILE, S_ELEMENT,
	KINDS
};
static const char *names[] = {
	"build", "serialize", "parse", "validate", "defaults", "patch", "pointer", "path", "update", "flatten",
	"compare", "blob", "convert", "file", "loader", "uri", "arguments", "events", "payload", "schema of schemas",
	"common read", "common copy", "common handles", "common serialize", "common compare", "common validate",
	"common path", "common iterate", "common blob", "common diff", "common update from", "common defaults",
	"common patch", "common parameters", "common file", "common element"
};
static const SerializeType formats[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};

struct Op {
	Kind k;
	Val a, b;
	SerializeType f;
	string text, name;
	unsigned n;
	int yields;
};
struct Common { Variant inst, doc, schema, blob, patch, params; string file; bool flat; };

static string show(const Variant &v) { return val_str(from_variant(v)); }
static string ser(const Variant &v, SerializeType f) { return Serialize(v, f); }

static bool fetch(SchemaLoader *l, const string &uri, SchemaLoader::LoaderError &, void *ctx) {
	Variant s;
	s.Set("type", "object");
	s.Set("title", uri + *(const string *)ctx);
	l->AddSchema(uri, s);
	return true;
}
struct Count : public ParserActions {
	string &log;
	explicit Count(string &l) : log(l) {}
	void Null(ParserImpl *, const char *, const char *) { log += "n"; }
	void Scalar(ParserImpl *, bool v, const char *, const char *) { log += v ? "t" : "f"; }
	void Scalar(ParserImpl *, intmax_t v, const char *, const char *) { log += vp::fmt("i%jd", v); }
	void Scalar(ParserImpl *, uintmax_t v, const char *, const char *) { log += vp::fmt("u%ju", v); }
	void Scalar(ParserImpl *, double v, const char *, const char *) { log += vp::fmt("d%a", v); }
	void Scalar(ParserImpl *, const char *v, unsigned n, const char *, const char *) { log += "s" + string(v, n); }
	void Scalar(ParserImpl *, BlobPtr b, const char *, const char *) { log += "b" + blob_bytes(b); }
	void Alias(ParserImpl *, const char *a) { log += string("*") + a; }
	void BeginList(ParserImpl *, int, const char *, const char *) { log += "["; }
	void EndList(ParserImpl *) { log += "]"; }
	void BeginMap(ParserImpl *, int, const char *, const char *) { log += "{"; }
	void EndMap(ParserImpl *) { log += "}"; }
	void BeginDocument(ParserImpl *) { log += "<"; }
	void EndDocument(ParserImpl *) { log += ">"; }
};

static string run_op(const Op &o, const Common &cm, unsigned who) {
	std::ostringstream r;
	switch (o.k) {
	case K_BUILD: {
		Variant v = to_variant(o.a), w = v.Copy(), h = v;
		Variant m;
		m["x"]["y"] = w;
		m["l"][o.n] = h;
		m["x"]["z"] = o.n;
		m.SetPath(string("/p/q/r"), w);
		m["l"].Append("end");
		m["gone"] = 1;
		m.Erase("gone");
		r << show(m) << show(v);
		break;
	}
	case K_SERIALIZE: {
		Variant v = to_variant(o.a);
		if (o.f != SERIALIZE_BUNDLEHDR) {
			// always some text that has to be escaped, so that the escaping of several threads overlaps
			Variant w;
			w.Append(v);
			for (unsigned i = 0; i < 8; ++i)
				w.Append(o.f == SERIALIZE_JSON ? string("\x01\x1f") + char(1 + (o.n + i) % 31) + "\x02" : string("<&>\"'\n") + char('a' + i));
			v = w;
		}
		string t = ser(v, o.f);
		r << t << show(Deserialize(t, o.f));
		break;
	}
	case K_PARSE:
		r << show(Deserialize(o.text, o.n % 3 ? o.f : SERIALIZE_GUESS));
		break;
	case K_VALIDATE: {
		Variant s = to_variant(o.a), d = to_variant(o.b);
		SchemaResult e = SchemaValidate(s, d);
		r << e.Error() << e.PrettyPrintMessage();
		break;
	}
	case K_DEFAULTS: {
		Variant s = to_variant(o.a), d = to_variant(o.b);
		AddSchemaDefaults(s, d);
		r << show(d);
		break;
	}
	case K_PATCH: {
		Variant s = to_variant(o.a), d = to_variant(o.b), diff = JSONDiff(s, d);
		std::pair<bool, string> x = JSONPatch(s, diff);
		r << show(diff) << x.first << x.second << show(s);
		break;
	}
	case K_POINTER: {
		Variant s = to_variant(o.a);
		JSONPointerAdd("/added", s, to_variant(o.b));
		JSONPointerCopy("/added", "/copied", s);
		JSONPointerMove("/copied", "/moved", s);
		r << show(JSONPointerLookup("/moved", s));
		JSONPointerRemove("/added", s);
		r << show(s);
		break;
	}
	case K_PATH: {
		Path p; p.push_back("a"); p.push_back(o.n); p.push_back("b c");
		string t = PathString(p);
		Variant v;
		v.SetPath(p, to_variant(o.a));
		r << t << show(v.GetPath(t)) << show(v);
		v.ErasePath(t, true);
		r << show(v);
		break;
	}
	case K_RUPDATE: {
		Variant s = to_variant(o.a), d = to_variant(o.b);
		Variant x = RDiff(s, d);
		RUpdate(s, x);
		r << show(x) << show(s);
		break;
	}
	case K_FLATTEN: {
		Variant f = FlattenPath(to_variant(o.a));
		r << show(f) << show(ExpandPath(f));
		break;
	}
	case K_COMPARE: {
		Variant s = to_variant(o.a), d = to_variant(o.b);
		r << s.Compare(d) << (s == d) << (s < d) << s.Compare(s.Copy());
		break;
	}
	case K_BLOB: {
		Variant v = Variant(make_blob(o.text, std::vector<size_t>()));
		Variant m;
		m["b"] = v;
		m["c"] = v.Copy();
		string t = ser(m, o.f == SERIALIZE_BUNDLEHDR ? SERIALIZE_JSON : o.f);
		r << t << show(Deserialize(t, o.f == SERIALIZE_BUNDLEHDR ? SERIALIZE_JSON : o.f));
		break;
	}
	case K_CONVERT: {
		Variant v = to_variant(o.a);
		r << v.AsString() << " " << v.AsBool() << " " << v.AsInt() << " " << v.AsDouble();
		break;
	}
	case K_FILE: {
		// the sequential run uses the same name again, after the threads
		Serialize(o.name, to_variant(o.a), o.f);
		r << show(DeserializeFile(o.name.c_str(), o.f));
		break;
	}
	case K_LOADER: {
		SchemaLoader l;
		l.SetMissingHandler(fetch, (void *)&o.name);
		r << show(l.GetSchema("http://example.com/" + o.name.substr(o.name.size() - 3)));
		l.AddSchema("http://example.com/own", to_variant(o.a));
		r << show(l.GetSchema("http://example.com/own"));
		Variant s;
		s.Set("$ref", "http://json-schema.org/draft-04/schema#");
		r << SchemaValidate(s, to_variant(o.a), &l).Error();
		break;
	}
	case K_URI:
		r << SchemaLoader::ResolveURI("http://a.b/c/d", o.text) << SchemaLoader::ResolveURI(o.text, "x/../y?z#w");
		break;
	case K_ARGS: {
		ArgParse p("prog");
		p.AddOption("count", 'c').Title("count").Type(ARGTYPE_INT).Minimum(0).Maximum(100);
		p.AddArgument("name").Help("a name");
		p.Validate();
		r << show(p.GetDescription()) << show(p.GenerateSchema());
		break;
	}
	case K_EVENTS: {
		string log;
		Parser p = CreateParser(CreateParserInput(o.text), o.f);
		p.PushAction(shared_ptr<ParserActions>(new Count(log)));
		try { for (unsigned i = 0; i < 100000 && p.Run() == 0; ++i) {} }
		catch (const std::exception &e) { log += typeid(e).name(); }
		r << log;
		break;
	}
	case K_PAYLOAD: {
		Variant v = to_variant(o.a);
		if (!v.IsMap()) break;
		std::ostringstream os;
		Variant params;
		params["payload_loc"] = "payload";
		v["payload"] = Variant(make_blob(o.text, std::vector<size_t>()));
		string t = Serialize(v, SERIALIZE_YAML, params);
		r << t;
		break;
	}
	case K_SCHEMAFILE: {
		SchemaLoader l;
		r << SchemaValidate(l.GetSchema("http://json-schema.org/draft-04/schema#"), to_variant(o.a)).Error();
		break;
	}
	case S_READ: {
		const Variant &d = cm.doc;
		r << d.Size() << d.Contains("a") << d.IsMap() << show(d.Get("a", 5)) << d.Empty() << show(d);
		break;
	}
	case S_COPY: {
		Variant v = cm.doc.Copy();
		v["a"] = who;
		v.Erase("b");
		r << show(v);
		break;
	}
	case S_HANDLES: {
		std::vector<Variant> hs;
		for (unsigned i = 0; i < 2 + o.n; ++i) hs.push_back(cm.doc);
		Variant h = hs.back();
		Variant::ConstMapIterator i = cm.doc.MapBegin(), e = cm.doc.MapEnd();
		for (; i != e; ++i) { hs.push_back(i->second); Variant own; own["kept"] = i->second; hs.push_back(own); }
		hs.erase(hs.begin(), hs.begin() + hs.size() / 2);
		std::vector<VariantRef> rs;
		rs.push_back(VariantRef(h));
		rs.push_back(rs[0]);
		r << show(hs.back()) << show(rs[1]) << hs.size();
		break;
	}
	case S_SERIALIZE:
		r << ser(cm.doc, o.f == SERIALIZE_BUNDLEHDR ? SERIALIZE_JSON : o.f);
		break;
	case S_COMPARE:
		r << cm.doc.Compare(to_variant(o.a)) << (cm.doc == cm.doc) << to_variant(o.a).Compare(cm.doc);
		break;
	case S_VALIDATE:
		r << SchemaValidate(cm.schema, o.n & 1 ? cm.inst : o.n & 2 ? to_variant(o.a) : cm.doc).PrettyPrintMessage();
		break;
	case S_PATH:
		r << show(cm.doc.GetPath(string("/a"), 7)) << cm.doc.HasPath(string("/b/c"));
		break;
	case S_ITER: {
		Variant h = cm.doc;
		for (Variant::MapIterator i = h.MapBegin(), e = h.MapEnd(); i != e; ++i) {
			r << i->first << i->second.GetType();
			if (i->second.IsString()) r << i->second.AsString();
			if (i->second.IsList()) for (Variant::ListIterator j = i->second.ListBegin(), f = i->second.ListEnd(); j != f; ++j) r << j->GetType();
		}
		break;
	}
	case S_BLOB: {
		Variant b = cm.blob, c2 = b.Copy();
		ConstBlobPtr p = cm.blob.AsBlob();
		r << p->GetTotalLength() << blob_bytes(p) << blob_bytes(c2.AsBlob()) << b.Compare(c2);
		break;
	}
	case S_DIFF: {
		Variant x = JSONDiff(cm.doc, to_variant(o.a)), y = RDiff(cm.doc, to_variant(o.a));
		r << show(x) << show(y) << show(FlattenPath(cm.doc));
		break;
	}
	case S_UPDATE_FROM: {
		Variant own = to_variant(o.a);
		RUpdate(own, cm.doc);
		r << show(own);
		break;
	}
	case S_DEFAULTS: {
		Variant own = to_variant(o.a);
		AddSchemaDefaults(cm.schema, own);
		r << show(own);
		break;
	}
	case S_PATCH: {
		Variant own = to_variant(o.a);
		std::pair<bool, string> x = JSONPatch(own, cm.patch);
		r << x.first << x.second << show(own);
		own["p"]["more"] = 1;
		r << show(own);
		break;
	}
	case S_PARAMS: {
		Variant own = to_variant(o.a);
		r << Serialize(own, o.f == SERIALIZE_BUNDLEHDR ? SERIALIZE_YAML : o.f, cm.params);
		if (cm.flat) { Variant x = FlattenPath(own, cm.params); r << show(x) << show(ExpandPath(x, cm.params)); }
		break;
	}
	case S_FILE:
		r << show(o.n & 1 ? DeserializeGuessFile(cm.file.c_str()) : DeserializeFile(cm.file.c_str(), SERIALIZE_YAML));
		break;
	case S_ELEMENT: {
		// elements of the common document placed in own containers, then replaced there
		Variant own = to_variant(o.a), e = cm.doc.Get("a", 1);
		own["e"] = e;
		own["f"].Append(e);
		r << show(own);
		own["e"] = o.n;
		own["f"] = e.Copy();
		r << show(own) << (own["f"] == e);
		break;
	}
	default: break;
	}
	return r.str();
}
static string safe_op(const Op &o, const Common &cm, unsigned who) {
	try { return run_op(o, cm, who); }
	catch (const vp::Failure &f) { return "failure " + f.msg; }
	catch (const std::exception &e) { return string("threw ") + typeid(e).name(); }
}

void vp_case(Ctx &c) {
	GenOpt g;
	g.big = false; g.maxdepth = 3; g.text = TK_XML; g.empty_keys = false;
	SchemaGen sg;
	sg.maxdepth = 2;
	unsigned nt = 2 + c.pick(3);
	Common cm;
	Val doc = gen_map(c, g), sch = gen_schema(c, sg);
	if (c.coin()) doc.m["a"] = gen_val(c, g, 1);
	string bytes = gen_bytes(c, 20);
	if (c.chance(1, 3)) { Val x = Val::map(); x.m[c.coin() ? "items" : "additionalItems"] = sch; if (c.coin()) x.m["uniqueItems"] = Val::boolean(true); if (!x.m.count("items")) { x.m["items"] = Val::list(); x.m["items"].l.push_back(sch); } sch = x; }
	Val inst = gen_instance(c, sch);
	bool same = c.coin();                     // every thread runs the same program
	bool few = c.coin();                            // few kinds: more threads in the same code
	std::vector<unsigned> kinds;
	if (few) for (unsigned i = 0; i < 2; ++i) kinds.push_back(c.pick(KINDS));
	bool from_ext = false;
	Val patch = Val::list(), params = Val::map();
	for (unsigned i = 0, n = 1 + c.pick(3); i < n; ++i) {
		Val p = Val::map();
		p.m["op"] = Val::str(i ? "replace" : "add");
		p.m["path"] = Val::str("/p");
		p.m["value"] = c.coin() ? gen_map(c, g) : gen_val(c, g, 2);
		patch.l.push_back(p);
	}
	if (c.coin()) params.m["pretty"] = Val::boolean(c.coin());
	if (c.coin()) params.m["indent"] = Val::integer(2 + c.pick(4));
	if (c.coin()) params.m["width"] = Val::integer(20 + c.pick(40));
	if (c.coin()) { from_ext = true; params.m["noSimpleLists"] = Val::boolean(c.coin()); params.m["pathPrefix"] = Val::str(""); params.m["pathDelimiter"] = Val::str(c.coin() ? "." : "/"); params.m["indexPrefix"] = Val::str("["); params.m["indexSuffix"] = Val::str("]"); params.m["listDelimiter"] = Val::str(","); }
	c.note("common patch    %s parameters %s", val_str(patch).c_str(), val_str(params).c_str());
	c.note("common document %s", val_str(doc).c_str());
	c.note("common instance %s", val_str(inst).c_str());
	c.note("common schema   %s", val_str(sch).c_str());
	std::vector<std::vector<Op> > prog(nt);
	for (unsigned t = 0; t < nt; ++t) {
		if (t && same) {
			prog[t] = prog[0];
			for (unsigned i = 0; i < prog[t].size(); ++i) prog[t][i].name = vp::scratch() + vp::fmt("/t%u-%u", t, i);
			c.note("thread %u: the same", t);
			continue;
		}
		unsigned k = 1 + c.pick(5);
		for (unsigned i = 0; i < k; ++i) {
			Op o;
			o.k = Kind(few ? kinds[c.pick(2)] : c.pick(KINDS));
			o.f = formats[c.pick(4)];
			o.n = c.pick(4);
			o.yields = c.pick(3);
			o.name = vp::scratch() + vp::fmt("/t%u-%u", t, i);
			switch (o.k) {
			case K_VALIDATE: case K_DEFAULTS: o.a = gen_schema(c, sg); o.b = gen_instance(c, o.a); break;
			case K_LOADER: case K_SCHEMAFILE: o.a = gen_schema(c, sg); break;
			case K_PATCH: case K_RUPDATE: case K_COMPARE: o.a = gen_map(c, g); o.b = o.a; mutate_val(c, o.b, g); break;
			case K_PARSE: case K_EVENTS:
				// texts made without the library, so that its first use is the threads'
				if (o.f == SERIALIZE_YAML || o.f == SERIALIZE_JSON) { o.f = SERIALIZE_YAML; o.text = gen_yaml_text(c); }
				else if (o.f == SERIALIZE_XMLPLIST) o.text = gen_xml_text(c);
				else if (c.coin()) o.text = gen_bundle_text(c);
				else { o.f = SERIALIZE_JSON; o.text = c.coin() ? "{\"a\": [1, 2.5, null, true, \"x\\u00e9\"]}" : "[{}, \"b\", -1e3"; }
				break;
			case K_SERIALIZE: case K_FILE: o.a = gen_val_for(c, o.f); break;
			case K_BLOB: case K_PAYLOAD: o.text = gen_bytes(c, 30); o.a = gen_map(c, g); break;
			case K_URI: o.text = c.coin() ? "../e/./f?g" : "http://h/i/../j"; break;
			case K_CONVERT: o.a = gen_scalar(c, g); break;
			case S_VALIDATE: o.a = gen_instance(c, sch); break;
			default: o.a = gen_map(c, g); o.b = gen_val(c, g, 1); break;
			}
			c.note("thread %u: %s %s n=%u %s %s %s", t, names[o.k], format_name(o.f), o.n, val_str(o.a).c_str(), val_str(o.b).c_str(), vp::quote(o.text).c_str());
			prog[t].push_back(o);
			c.label(names[o.k]);
		}
	}
	cm.doc = to_variant(doc);
	cm.inst = to_variant(inst);
	cm.patch = to_variant(patch);
	cm.params = to_variant(params);
	cm.flat = from_ext;
	cm.file = vp::scratch() + "/common";
	{ std::ofstream f(cm.file.c_str()); f << "a: [1, 2.5, yes, ~, text]\nb: {c: 'd'}\n"; }
	cm.schema = to_variant(sch);
	cm.blob = Variant(make_blob(bytes, std::vector<size_t>()));
	std::vector<std::vector<string> > got(nt);
	std::atomic<unsigned> ready[5];
	unsigned parties[5];
	for (unsigned i = 0; i < 5; ++i) { ready[i] = 0; parties[i] = 0; for (auto &p : prog) parties[i] += p.size() > i; }
	std::vector<std::thread> th;
	for (unsigned t = 0; t < nt; ++t) th.push_back(std::thread([&, t]() {
		for (size_t i = 0; i < prog[t].size(); ++i) {
			// start the operations together: reference counts order whatever happens one after the other
			ready[i].fetch_add(1, std::memory_order_relaxed);
			for (unsigned spin = 0; ready[i].load(std::memory_order_relaxed) < parties[i] && spin < 2000; ++spin) sched_yield();
			for (int y = 0; y < prog[t][i].yields; ++y) sched_yield();
			got[t].push_back(safe_op(prog[t][i], cm, t));
		}
	}));
	for (auto &x : th) x.join();
	VP_CHECK(val_same(from_variant(cm.doc), doc), "the common document changed to %s", val_str(from_variant(cm.doc)).c_str());
	VP_CHECK(val_same(from_variant(cm.inst), inst), "the common instance changed to %s", val_str(from_variant(cm.inst)).c_str());
	VP_CHECK(val_same(from_variant(cm.schema), sch), "the common schema changed to %s", val_str(from_variant(cm.schema)).c_str());
	VP_CHECK(val_same(from_variant(cm.patch), patch), "the common patch changed to %s", val_str(from_variant(cm.patch)).c_str());
	VP_CHECK(val_same(from_variant(cm.params), params), "the common parameters changed to %s", val_str(from_variant(cm.params)).c_str());
	for (unsigned t = 0; t < nt; ++t) for (size_t i = 0; i < prog[t].size(); ++i) {
		string want = safe_op(prog[t][i], cm, t);
		VP_CHECK(got[t][i] == want, "thread %u, operation %zu (%s): %s, alone %s", t, i, names[prog[t][i].k], vp::quote(got[t][i]).c_str(), vp::quote(want).c_str());
		c.evals(1);
		if (prog[t][i].k == K_FILE) remove(prog[t][i].name.c_str());
	}
	uint64_t h = val_hash(doc);
	bool two = false;
	std::map<unsigned, unsigned> users;
	for (unsigned t = 0; t < nt; ++t) {
		std::map<unsigned, bool> mine;
		for (auto &o : prog[t]) { mine[o.k >= OWN ? OWN : o.k] = true; h = vp::hashmix(h, vp::hashmix(o.k * 7 + t, val_hash(o.a) ^ vp::hash64(o.text))); }
		for (auto &k : mine) if (++users[k.first] > 1) two = true;
	}
	if (two) c.nontrivial(h);
}

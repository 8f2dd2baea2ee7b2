// C28: the event interfaces of emitters and parsers.
#include "val.h"
#include "texts.h"
#include <Variant/Emitter.h>
#include <Variant/Parser.h>
#include <sstream>
#include <strings.h>
#include <limits>
#include <set>
using namespace libvariant;
using vp::Ctx;
using std::string;
using std::vector;
const char *vp_rule = "at least four events, of which one opens a container";

static const SerializeType formats[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};

// ---- writing -------------------------------------------------------------------
struct Plan { Ctx &c; unsigned events; bool plain; };
template<class T> static bool ints(const Val &v, vector<T> &out) {
	for (auto &x : v.l) { if (x.t != Val::Int || x.i < std::numeric_limits<T>::min() || x.i > std::numeric_limits<T>::max()) return false; out.push_back(x.i); }
	return true;
}
static bool strings(const Val &v, vector<string> &out) { for (auto &x : v.l) { if (x.t != Val::Str) return false; out.push_back(x.s); } return true; }
static bool floats(const Val &v, std::map<string, double> &out) { for (auto &x : v.m) { if (x.second.t != Val::Float) return false; out[x.first] = x.second.d; } return true; }
static void text(Plan &p, Emitter &e, const string &s) {
	bool nul = s.find('\0') != string::npos;
	switch (p.plain ? 0 : p.c.pick(nul ? 2 : 4)) {
	case 0: e.Emit(s); break;
	case 1: e << s; break;
	case 2: e.Emit(s.c_str()); break;
	default: e << s.c_str(); break;
	}
}
static void emit(Plan &p, Emitter &e, const Val &v) {
	Ctx &c = p.c;
	++p.events;
	if (!p.plain && c.chance(1, 12)) e.Flush();
	if (!p.plain && c.chance(1, 10)) { e << to_variant(v); return; }
	switch (v.t) {
	case Val::Null: e.EmitNull(); break;
	case Val::Bool: if (p.plain || c.coin()) { if (v.b) e.EmitTrue(); else e.EmitFalse(); } else if (c.coin()) e.Emit(v.b); else e << v.b; break;
	case Val::Int:
		switch (p.plain ? 0 : c.pick(6)) {
		case 1: if ((signed char)v.i == v.i && (char)v.i == v.i) { e << (char)v.i; break; }
		case 2: if ((short)v.i == v.i) { e << (short)v.i; break; }
		case 3: if ((int)v.i == v.i) { e << (int)v.i; break; }
		case 4: e << (long)v.i; break;
		case 5: e << (long long)v.i; break;
		default: e.Emit((intmax_t)v.i); break;
		}
		break;
	case Val::UInt:
		switch (p.plain ? 0 : c.pick(6)) {
		case 1: if ((unsigned char)v.u == v.u) { e << (unsigned char)v.u; break; }
		case 2: if ((unsigned short)v.u == v.u) { e << (unsigned short)v.u; break; }
		case 3: if ((unsigned)v.u == v.u) { e << (unsigned)v.u; break; }
		case 4: e << (unsigned long)v.u; break;
		case 5: e << (unsigned long long)v.u; break;
		default: e.Emit((uintmax_t)v.u); break;
		}
		break;
	case Val::Float: if (p.plain || c.coin()) e.Emit(v.d); else if ((float)v.d == v.d && c.coin()) e << (float)v.d; else e << v.d; break;
	case Val::Str: text(p, e, v.s); break;
	case Val::Blob: { ConstBlobPtr b = make_blob(v.s, v.cuts, v.noparts); if (p.plain || c.coin()) e.Emit(b); else e << b; break; }
	case Val::List: {
		if (!p.plain && c.coin()) {
			vector<int> n; vector<string> s; vector<short> h;
			if (ints(v, n) && c.coin()) { e << n; break; }
			if (ints(v, h)) { e << h; break; }
			if (strings(v, s)) { e << s; break; }
		}
		if (p.plain || c.coin()) e.BeginList(); else e.BeginList(v.l.size());
		for (auto &x : v.l) emit(p, e, x);
		e.EndList();
		break; }
	case Val::Map: {
		if (!p.plain && c.coin()) { std::map<string, double> m; if (floats(v, m)) { e << m; break; } }
		if (p.plain || c.coin()) e.BeginMap(); else e.BeginMap(v.m.size());
		for (auto &x : v.m) { text(p, e, x.first); emit(p, e, x.second); }
		e.EndMap();
		break; }
	}
}
struct Text { bool ok; string s, why; };
template<class F> static Text attempt(F f) {
	Text t; t.ok = false;
	try { t.s = f(); t.ok = true; } catch (const std::exception &e) { t.why = e.what(); }
	return t;
}
// The options an emitter reports are the ones it was given.
static void options(Emitter &e, const Variant &params, SerializeType f) {
	if (params.IsNull()) return;
	const Variant all = e.GetParams();
	for (Variant::ConstMapIterator i = params.MapBegin(); i != params.MapEnd(); ++i) {
		Variant got = e.GetParam(i->first);
		VP_CHECK(got == i->second, "%s option %s set to %s reads back as %s", format_name(f), i->first.c_str(), val_str(from_variant(i->second)).c_str(), val_str(from_variant(got)).c_str());
		VP_CHECK(all.Contains(i->first) && all[i->first] == i->second, "%s option %s set to %s is missing or different in %s", format_name(f), i->first.c_str(), val_str(from_variant(i->second)).c_str(), val_str(from_variant(all)).c_str());
	}
}
static void writing(Ctx &c) {
	SerializeType f = formats[c.weighted({4, 4, 3, 1})];
	Val v = gen_val_for(c, f);
	Variant params = gen_params(c, f);
	if (!params.IsNull() && f == SERIALIZE_JSON && c.chance(1, 4)) params["strict"] = c.coin();
	c.note("%s %s", format_name(f), val_str(v).c_str());
	c.note("params %s", params.IsNull() ? "none" : val_str(from_variant(params)).c_str());
	Text whole = attempt([&] { return params.IsNull() ? Serialize(to_variant(v), f) : Serialize(to_variant(v), f, params); });
	Plan p = {c, 0, c.chance(1, 4)};
	// libyaml replaces widths that leave no room beside the indent only when it starts
	bool late = !params.IsNull() && c.chance(1, 3) && !(f == SERIALIZE_YAML && params.Contains("width") && params["width"].AsInt() >= 0 && params["width"].AsInt() < 20);
	int route = late ? c.pick(3) : 0;
	if (late) c.note("options set after creation, route %d", route);
	Text events = attempt([&] {
		std::ostringstream oss;
		Emitter e = CreateEmitter(CreateEmitterOutput(oss.rdbuf()), f, !late || route == 2 ? params : Variant(Variant::NullType));
		Variant before = e.GetParams();
		if (late && route == 0) e.SetParams(params);
		else if (late && route == 1) { for (Variant::ConstMapIterator i = ((const Variant &)params).MapBegin(); i != ((const Variant &)params).MapEnd(); ++i) e.SetParam(i->first, i->second); }
		else if (late) { e.SetParams(before); c.evals(1); }
		options(e, params, f);
		emit(p, e, v);
		if (c.coin()) e.Flush();
		e.Close();
		if (c.chance(1, 4)) e.Close();
		return oss.str();
	});
	VP_CHECK(whole.ok == events.ok, "as a whole %s, by events %s", whole.ok ? "written" : whole.why.c_str(), events.ok ? "written" : events.why.c_str());
	if (whole.ok) VP_CHECK(whole.s == events.s, "by events:\n%s\nas a whole:\n%s", events.s.c_str(), whole.s.c_str());
	c.evals(1);
	c.label(string("writing ") + format_name(f));
	if (p.events >= 4 && (v.t == Val::List || v.t == Val::Map)) c.nontrivial(vp::hashmix(val_hash(v), f));
	// an emitter that is left in the middle
	if (c.chance(1, 10)) {
		vector<uint64_t> none;
		auto run = [&] {
			std::ostringstream oss;
			Emitter e = CreateEmitter(CreateEmitterOutput(oss.rdbuf()), f, params);
			try { e.BeginMap(); e.Emit("k"); if (f != SERIALIZE_BUNDLEHDR) e.BeginMap(); e.Emit("k"); } catch (const std::exception &) {}
		};
		vp::leak_check(run, "an emitter dropped inside a document");
		c.evals(1);
	}
}
// ---- explicit documents --------------------------------------------------------
static void documents(Ctx &c) {
	SerializeType f = c.coin() ? SERIALIZE_YAML : c.coin() ? SERIALIZE_XMLPLIST : SERIALIZE_JSON;
	unsigned n = f == SERIALIZE_YAML ? 1 + c.pick(3) : 1;
	vector<Val> docs;
	for (unsigned i = 0; i < n; ++i) docs.push_back(gen_val_for(c, f));
	Variant params = gen_params(c, f);
	// without markers the end of a document is only known by the next one
	if (n > 1 && !params.IsNull() && params.IsMap()) { params.Erase("implicit_document_begin"); params.Erase("implicit_document_end"); }
	for (auto &d : docs) c.note("%s document %s", format_name(f), val_str(d).c_str());
	c.note("params %s", params.IsNull() ? "none" : val_str(from_variant(params)).c_str());
	Text ref = attempt([&] { for (auto &d : docs) Serialize(to_variant(d), f, params); return string(); });
	if (!ref.ok) return;
	std::ostringstream oss;
	{
		Emitter e = CreateEmitter(CreateEmitterOutput(oss.rdbuf()), f, params);
		Plan p = {c, 0, c.coin()};
		for (auto &d : docs) { e.BeginDocument(); emit(p, e, d); e.EndDocument(); }
		e.Close();
	}
	string t = oss.str();
	Parser p = CreateParser(CreateParserInput(t), f);
	for (unsigned i = 0; i < n; ++i) {
		Val got = from_variant(ParseVariant(p));
		VP_CHECK(val_equal_roundtrip(docs[i], got, true), "document %u comes back as %s from\n%s", i, val_str(got).c_str(), t.c_str());
		c.evals(1);
	}
	c.label(string("documents ") + format_name(f));
	size_t nodes = 0;
	for (auto &d : docs) nodes += val_nodes(d);
	if (nodes >= 4) c.nontrivial(vp::hash64(t));
}
// ---- reading -------------------------------------------------------------------
struct Stop : std::runtime_error { Stop() : std::runtime_error("stopped by the user") {} };
struct OtherStop {};
struct Build {
	struct Frame { Val v; bool haskey; string key, anchor; };
	vector<Frame> stack;
	vector<Val> docs;
	std::map<string, Val> anchors;
	vector<string> tags, names;      // as they come
	void marks(const char *anchor, const char *tag) { if (anchor) names.push_back(anchor); if (tag) tags.push_back(tag); }
	unsigned count = 0, opened = 0;
	int open_docs = 0, seen_docs = 0;
	string problem;
	bool mine = false;       // failed on this side
	long stop_at = -1; int how = 0;
	uint64_t seq = 0;
	void bad(const char *m) { if (problem.empty()) problem = m; }
	void event(ParserImpl *p, uint64_t h) {
		seq = vp::hashmix(seq, h);
		if (stop_at >= 0 && count++ == (unsigned long)stop_at) {
			if (how == 0) throw Stop();
			if (how == 1) throw OtherStop();
			if (how == 2) p->PopAction();
		} else if (stop_at < 0) ++count;
	}
	void value(const Val &v, const char *anchor) {
		if (anchor) anchors[anchor] = v;
		if (stack.empty()) { if (open_docs) docs.clear(); docs.push_back(v); return; }
		Frame &f = stack.back();
		if (f.v.t == Val::List) f.v.l.push_back(v);
		else if (!f.haskey) { mine = true; f.key = v.t == Val::Str ? v.s : to_variant(v).AsString(); mine = false; f.haskey = true; }
		else { f.v.m[f.key] = v; f.haskey = false; }
	}
	void open(const Val &v, const char *anchor) { ++opened; Frame f; f.v = v; f.haskey = false; if (anchor) f.anchor = anchor; stack.push_back(f); }
	void close(Val::T t) {
		// a key without a value is left to the format
		if (stack.empty() || stack.back().v.t != t) { bad("an end that does not match"); return; }
		Frame f = stack.back();
		stack.pop_back();
		value(f.v, f.anchor.empty() ? 0 : f.anchor.c_str());
	}
};
class Rec : public ParserActions {
public:
	Build &b;
	bool nest;               // handle containers with an action of their own
	Rec(Build &x, bool n) : b(x), nest(n) {}
	void BeginDocument(ParserImpl *p) { if (b.open_docs++ || !b.stack.empty()) b.bad("a document inside a document"); ++b.seen_docs; b.event(p, 1); }
	void EndDocument(ParserImpl *p) { if (--b.open_docs < 0 || !b.stack.empty()) b.bad("the end of a document inside it"); b.event(p, 2); }
	void push(ParserImpl *p) { if (nest) p->PushAction(shared_ptr<ParserActions>(new Rec(b, true))); }
	void pop(ParserImpl *p) { if (nest) { shared_ptr<ParserActions> me = p->PopAction(); if (me.get() != this) b.bad("the action popped is not on top"); } }
	void BeginMap(ParserImpl *p, int len, const char *a, const char *t) { b.marks(a, t); b.open(Val::map(), a); push(p); b.event(p, 3); }
	void EndMap(ParserImpl *p) { Build &k = b; k.close(Val::Map); pop(p); k.event(p, 4); }
	void BeginList(ParserImpl *p, int len, const char *a, const char *t) { b.marks(a, t); b.open(Val::list(), a); push(p); b.event(p, 5); }
	void EndList(ParserImpl *p) { Build &k = b; k.close(Val::List); pop(p); k.event(p, 6); }
	void Alias(ParserImpl *p, const char *a) { auto i = b.anchors.find(a); if (i == b.anchors.end()) { b.mine = true; throw std::runtime_error("unknown alias"); } b.value(i->second, 0); b.event(p, 7); }
	void put(ParserImpl *p, const Val &v, const char *a) { b.value(v, a); b.event(p, val_hash(v)); }
	void Scalar(ParserImpl *p, double v, const char *a, const char *t) { b.marks(a, t); put(p, Val::real(v), a); }
	void Scalar(ParserImpl *p, const char *s, unsigned n, const char *a, const char *t) { b.marks(a, t); put(p, Val::str(string(s, n)), a); }
	void Scalar(ParserImpl *p, bool v, const char *a, const char *t) { b.marks(a, t); put(p, Val::boolean(v), a); }
	void Null(ParserImpl *p, const char *a, const char *t) { b.marks(a, t); put(p, Val(), a); }
	void Scalar(ParserImpl *p, intmax_t v, const char *a, const char *t) { b.marks(a, t); put(p, Val::integer(v), a); }
	void Scalar(ParserImpl *p, uintmax_t v, const char *a, const char *t) { b.marks(a, t); put(p, Val::uinteger(v), a); }
	void Scalar(ParserImpl *p, BlobPtr v, const char *a, const char *t) { b.marks(a, t); put(p, from_variant(Variant(v)), a); }
};
struct Ran { bool ok; string why; bool stopped, other; };
static Ran drive(Parser &p, Build &b, bool nest) {
	Ran r = {false, "", false, false};
	p.PushAction(shared_ptr<ParserActions>(new Rec(b, nest)));
	try {
		unsigned rounds = 0;
		while (true) {
			int n = p.Run();
			// without an action left an error just found is only raised by the next run
			VP_CHECK(b.stop_at >= 0 || !p.Error(), "Run() returned %d, but Error() is true", n);
			VP_CHECK(!p.Ok() || !p.Done(), "both Ok() and Done()");
			if (n == 1 || n == -1) break;
			VP_CHECK(b.stop_at >= 0 || p.Ok() || p.Done(), "Run() returned 0, but neither Ok() nor Done()");
			if (b.stop_at >= 0 && b.count > (unsigned long)b.stop_at) break;
			// the first document is all the whole parse takes
			if (b.seen_docs && !b.open_docs) break;
			if (!b.seen_docs && !b.docs.empty() && b.stack.empty()) break;
			VP_CHECK(++rounds < 2000000, "does not end");
		}
		r.ok = true;
	} catch (const Stop &) { r.stopped = true; }
	catch (const OtherStop &) { r.other = true; }
	catch (const std::exception &e) { r.why = e.what(); }
	return r;
}
// names given to values and used again, and tags, in flow style
static vector<string> tags_put, names_put;
static string tag(Ctx &c) {
	static const char *const text[] = {"!a", "!items", "!!my", "!<tag:x.org,2000:y>", "!<!q>"};
	static const char *const means[] = {"!a", "!items", "tag:yaml.org,2002:my", "tag:x.org,2000:y", "!q"};
	if (!c.chance(1, 6)) return "";
	unsigned k = c.pick(5);
	tags_put.push_back(means[k]);
	return string(text[k]) + " ";
}
static void anchored(Ctx &c, string &t, vector<string> &known, std::set<string> open, unsigned depth) {
	string name;
	// the name of a container being read is not used inside it
	if (c.chance(1, 3)) { name = c.coin() ? "a" : "b"; if (open.count(name)) name.clear(); }
	if (!name.empty()) { t += "&" + name + " "; open.insert(name); for (size_t i = 0; i < known.size();) if (known[i] == name) known.erase(known.begin() + i); else ++i; }
	else if (!known.empty() && c.chance(1, 3)) { t += "*" + known[c.pick(known.size())]; return; }
	if (!name.empty()) names_put.push_back(name);
	t += tag(c);
	switch (depth > 2 ? 0 : c.pick(3)) {
	case 0: { static const char *const w[] = {"x", "1", "yy", "2.5", "'q'", "~", "true"}; t += w[c.pick(7)]; break; }
	case 1: { t += "["; unsigned n = 0; while (n < 5 && c.more(2)) { if (n++) t += ", "; anchored(c, t, known, open, depth + 1); } t += "]"; break; }
	default: { t += "{"; unsigned n = 0; while (n < 5 && c.more(2)) { if (n++) t += ", "; if (c.chance(1, 5)) { t += "&k "; known.push_back("k"); names_put.push_back("k"); } t += tag(c); t += vp::fmt("k%u: ", n); anchored(c, t, known, open, depth + 1); } t += "}"; }
	}
	if (!name.empty()) known.push_back(name);
}
static void reading(Ctx &c) {
	SerializeType f = formats[c.weighted({4, 4, 3, 2})];
	string t = gen_format_text(c, f, false);
	bool marked = f == SERIALIZE_YAML && c.chance(1, 4);
	tags_put.clear(); names_put.clear();
	if (marked) { t.clear(); vector<string> known; anchored(c, t, known, std::set<string>(), 0); t += "\n"; }
	if (c.chance(1, 6)) { damage_text(c, t, f); marked = false; }
	// a root element inside the document is not a plist
	if (f == SERIALIZE_XMLPLIST) { unsigned n = 0, any = 0; for (size_t i = 0; i + 6 <= t.size(); ++i) { if (t[i] == '<' && isalpha((unsigned char)t[i + 1])) { if (strncasecmp(&t[i], "<plist", 6) == 0 && any) ++n; ++any; } } if (n) { c.exclude("root element inside the root"); return; } }
	c.note("%s text %s", format_name(f), vp::quote(t, 2000).c_str());
	bool nest = c.coin();
	bool ok = true; Val want; string why;
	try { want = from_variant(Deserialize(t, f)); } catch (const std::exception &e) { ok = false; why = e.what(); }
	Build b;
	{
		Parser p = CreateParser(CreateParserInput(t), f);
		VP_CHECK(p.Ok() && !p.Done() && !p.Error(), "a new parser is not Ok(), or Done() or Error()");
		Ran r = drive(p, b, nest);
		c.label(string("reading ") + format_name(f) + (ok ? "" : ", invalid"));
		if (ok) {
			VP_CHECK(b.problem.empty(), "%s", b.problem.c_str());
			VP_CHECK(r.ok, "by events: %s", r.why.c_str());
			Val got = b.docs.empty() ? Val() : b.docs[0];
			VP_CHECK(b.stack.empty(), "%u containers are never closed", (unsigned)b.stack.size());
			VP_CHECK(val_same(got, want), "by events %s, as a whole %s", val_str(got).c_str(), val_str(want).c_str());
			if (marked) {
				VP_CHECK(b.tags == tags_put, "%zu tags are reported, %zu are there, or they differ", b.tags.size(), tags_put.size());
				VP_CHECK(b.names == names_put, "%zu names are reported, %zu are there, or they differ", b.names.size(), names_put.size());
			}
			if (p.Done()) VP_CHECK(p.Run() == 1, "done, but runs on");
		} else if (r.ok) vp::fail("by events it is read, as a whole: " + why);
		else if (!b.mine) {
			VP_CHECK(p.Error(), "failed with %s, but Error() is false", r.why.c_str());
			VP_CHECK(!p.Ok() && !p.Done(), "failed with %s, but Ok() or Done()", r.why.c_str());
			VP_CHECK(!p.ErrorStr().empty(), "failed with %s, but no message is kept", r.why.c_str());
		}
		c.evals(1);
	}
	if (b.count >= 4 && b.opened) c.nontrivial(vp::hash64(t));
	if (!b.count) return;
	// the user ends it early
	unsigned at = c.pick(b.count);
	int how = c.pick(4);
	auto run = [&] {
		Build e;
		e.stop_at = at;
		e.how = how;
		Parser p = CreateParser(CreateParserInput(t), f);
		Ran r = drive(p, e, nest && how != 2);
		VP_CHECK(how != 0 || r.stopped, "the exception of the user is lost: %s", r.why.c_str());
		VP_CHECK(how != 1 || r.other, "the exception of the user is lost: %s", r.why.c_str());
	};
	static const char *const how_s[] = {"exception", "exception of another kind", "action removed", "parser dropped"};
	c.note("stopped at event %u by %s", at, how_s[how]);
	if (c.chance(1, 3)) vp::leak_check(run, "a parse stopped early"); else run();
	c.label(string("stopped by ") + how_s[how]);
	c.evals(1);
}
void vp_case(Ctx &c) {
	switch (c.weighted({5, 6, 2})) {
	case 0: writing(c); break;
	case 1: reading(c); break;
	default: documents(c); break;
	}
}

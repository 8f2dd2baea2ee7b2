// C30: the command line tool agrees with the library.  The tool's own objects
// are linked in with main renamed; each run is a forked child whose working
// directory, inputs and outputs are in the scratch directory.
#include "texts.h"
#include "core.h"
#include "refschema.h"
#include <Variant/Parser.h>
#include <Variant/Emitter.h>
#include <Variant/Payload.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Extensions.h>
#include <Variant/Path.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <sstream>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the run has an operation besides conversion or converts between two formats, and a non-empty document";
extern "C" int varsh_main(int argc, char **argv);

namespace c30 {
string dir;
string file(const string &n) { return dir + "/" + n; }
void put(const string &n, const string &text) {
	FILE *f = fopen(file(n).c_str(), "wb");
	if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) { fprintf(stderr, "cannot write %s\n", n.c_str()); _exit(3); }
}
bool get(const string &n, string &text) {
	text.clear();
	FILE *f = fopen(file(n).c_str(), "rb");
	if (!f) return false;
	char b[65536]; size_t k;
	while ((k = fread(b, 1, sizeof b, f)) > 0) text.append(b, k);
	fclose(f);
	return true;
}
void wipe() {
	for (const char *n : {"out", "set", "stdin", "stdout", "stderr", "in0", "in1", "in2", "s0.json", "s1.json", "s2.json", "sub/s0.json", "sub/s1.json", "sub/s2.json", "sub"})
		if (unlink(file(n).c_str())) rmdir(file(n).c_str());
}
struct Run { int code; string out, err; };
int redirect(const string &n, int fd, int flags) {
	int f = open(n.c_str(), flags, 0600);
	if (f < 0) return -1;
	if (f != fd) { dup2(f, fd); close(f); }
	return 0;
}
Run run(const std::vector<string> &args, long fsize) {
	fflush(0);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(3); }
	if (pid == 0) {
		if (chdir(dir.c_str()) || redirect("stdin", 0, O_RDONLY) || redirect("stdout", 1, O_WRONLY | O_CREAT | O_TRUNC)
				|| redirect("stderr", 2, O_WRONLY | O_CREAT | O_TRUNC)) _exit(98);
		struct rlimit l = {20, 25};
		setrlimit(RLIMIT_CPU, &l);
		struct itimerval off; memset(&off, 0, sizeof off); setitimer(ITIMER_PROF, &off, 0);
		if (fsize >= 0) {
			signal(SIGXFSZ, SIG_IGN);
			l.rlim_cur = l.rlim_max = fsize;
			setrlimit(RLIMIT_FSIZE, &l);
		}
		std::vector<char *> av;
		av.push_back(strdup("varsh"));
		for (auto &a : args) av.push_back(strdup(a.c_str()));
		av.push_back(0);
		int rc = 97;
		try { rc = varsh_main((int)av.size() - 1, av.data()); } catch (...) { _exit(96); }   // would be terminate()
		exit(rc);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Run r;
	get("stdout", r.out);
	get("stderr", r.err);
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "the tool was killed\n"); raise(SIGKILL); }
	if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) vp::fail(vp::fmt("the tool died of signal %d: %s", WTERMSIG(st), r.err.substr(0, 600).c_str()));
	if (r.err.find("Sanitizer:") != string::npos || r.err.find("runtime error:") != string::npos)
		vp::fail("the tool crashed: " + r.err.substr(0, 900));
	r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
	if (WIFEXITED(st) && (r.code == 98 || r.code == 97)) { fprintf(stderr, "cannot run the tool\n"); _exit(3); }
	return r;
}
Variant read(const string &text, SerializeType f, bool payload) {
	std::istringstream in(text);
	return payload ? DeserializeWithPayloadFile(in.rdbuf(), f) : DeserializeFile(in.rdbuf(), f);
}
const SerializeType formats[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
string option(Ctx &c, const char *shorter, const char *longer) { return shorter && c.coin() ? shorter : longer; }
}
using namespace c30;

void vp_case(Ctx &c) {
	dir = vp::scratch();
	wipe();
	std::vector<std::vector<string> > opts;        // shuffled before the run
	std::vector<string> names;                     // input files
	// --- inputs
	size_t fi = c.pick(5);                         // 0: guessed
	bool pin = c.chance(1, 8), pout = c.chance(1, 8);
	SerializeType itype = fi == 0 ? SERIALIZE_GUESS : formats[fi - 1];
	static const char *const is[] = {"-G", "-J", "-Y", "-X", "-B"}, *const il[] = {"--guess", "--json-in", "--yaml-in", "--xml-in", "--bundlehdr-in"};
	if (fi != 0 || c.chance(1, 3)) opts.push_back({option(c, is[fi], il[fi])});
	if (pin) opts.push_back({option(c, "-P", "--payload-in")});
	// --- schemas
	bool with_schema = c.chance(1, 5), schema_bad = false;
	Val schema;
	size_t ns = 0;
	std::vector<Val> schemas;
	if (with_schema) {
		SchemaGen o;
		o.maxdepth = 3;
		do {
			Val s = gen_schema(c, o);
			string n = vp::fmt("s%zu.json", ns++), at = n;
			if (c.chance(1, 3)) {
				mkdir(file("sub").c_str(), 0700);
				at = "sub/" + n;
				if (c.coin()) n = at; else opts.push_back({"--schema-path", "sub"});
			}
			string st = Serialize(to_variant(s), SERIALIZE_JSON);
			try { s = from_variant(DeserializeGuess(st)); } catch (std::exception &) { schema_bad = true; }
			put(at, st);
			opts.push_back({"--schema", n});
			schemas.push_back(s);
		} while (ns < 3 && c.chance(1, 4));
	}
	// --- documents
	size_t nfiles = c.weighted({3, 3, 1, 1});
	std::vector<string> texts;
	std::vector<int> bad;                           // 1: missing, 2: a directory
	for (size_t i = 0; i < std::max<size_t>(nfiles, 1); ++i) {
		SerializeType tf = fi == 0 ? formats[c.pick(3)] : itype;
		string t;
		if (with_schema && c.chance(3, 4) && tf != SERIALIZE_BUNDLEHDR) {
			Val d = gen_instance(c, schemas[c.pick(schemas.size())]);
			if (d.t != Val::Map && d.t != Val::List) { Val l = Val::list(); l.l.push_back(d); d = l; }
			try { t = Serialize(to_variant(d), tf, Variant()); } catch (std::exception &) { throw vp::Discard(); }
		} else if (c.chance(3, 4)) {
			try { t = Serialize(to_variant(gen_val_for(c, tf)), tf, gen_params(c, tf)); } catch (std::exception &) { throw vp::Discard(); }
		} else t = gen_format_text(c, tf, false);
		if (pin && c.chance(3, 4)) {
			Val d = tf == SERIALIZE_BUNDLEHDR ? gen_bundle_map(c) : gen_val_for(c, tf);
			if (d.t != Val::Map) d = Val::map();
			Val b = Val::blob(gen_bytes(c, 12));
			if (tf == SERIALIZE_BUNDLEHDR) { d.m["payload.data"] = b; d.m.erase("payload.length"); }
			else { d.m["payload"] = Val::map(); d.m["payload"].m["data"] = b; }
			try { t = SerializeWithPayload(to_variant(d), tf); } catch (std::exception &) { throw vp::Discard(); }
		}
		if (c.chance(1, 8)) damage_text(c, t, tf);
		texts.push_back(t);
		int b = nfiles == 0 ? 0 : (int)c.weighted({18, 1, 1});
		bad.push_back(b);
		string n = nfiles == 0 ? string("stdin") : vp::fmt("in%zu", i);
		if (b == 0) put(n, t);
		else if (b == 2) mkdir(file(n).c_str(), 0700);
		if (nfiles) names.push_back(n);
	}
	if (nfiles) put("stdin", c.coin() ? "{\"other\": 1}" : "");
	// --- flatten, expand
	size_t ext = c.weighted({8, 1, 1});
	Variant ep;
	ep["noSimpleLists"] = false; ep["pathPrefix"] = ""; ep["pathDelimiter"] = "/";
	ep["indexPrefix"] = "["; ep["indexSuffix"] = "]"; ep["listDelimiter"] = ",";
	if (ext) {
		opts.push_back({ext == 1 ? option(c, "-f", "--flatten-path") : option(c, "-e", "--expand-path")});
		static const char *const on[] = {"path-prefix", "path-delimiter", "index-prefix", "index-suffix", "list-delimiter"};
		static const char *const pn[] = {"pathPrefix", "pathDelimiter", "indexPrefix", "indexSuffix", "listDelimiter"};
		static const std::vector<string> ch = {".", ":", "#", "|", "(", "", "!"};
		for (int k = 0; k < 5; ++k) if (c.chance(1, 4)) {
			string v = c.oneof(ch);
			if (v.empty() && k) v = ";";
			opts.push_back({string("--") + on[k] + "=" + v});
			ep[pn[k]] = v;
		}
		if (c.chance(1, 3)) {
			bool b = c.coin();
			opts.push_back({"--no-simple-lists", b ? "true" : "false"});
			ep["noSimpleLists"] = b;
		}
	}
	// --- path and action
	bool with_path = c.chance(1, 3);
	string path;
	if (with_path) {
		Variant d;
		try {
			d = read(texts[0], itype, pin);
			if (ext == 1) d = FlattenPath(d, ep); else if (ext == 2) d = ExpandPath(d, ep);
		} catch (std::exception &) {}
		Val v;
		try { v = from_variant(d); } catch (std::exception &) {}
		CellP root(new Cell);
		root->v = mv_from(v);
		path = PathString(to_path(core_path(c, root, 3)));
		if (path.find('\0') != string::npos) throw vp::Discard();
		opts.push_back(c.coin() ? std::vector<string>{"--path", path} : std::vector<string>{"--path=" + path});
	}
	enum { NONE, SET, SETFILE, LIST, LEN };
	size_t act = c.weighted({6, 2, 2, 2, 2});
	Variant setv;
	bool set_bad = false;
	if (act == SET) {
		static const struct { const char *t; Val v; } vals[] = {
			{"word", Val::str("word")}, {"1", Val::integer(1)}, {"-17", Val::integer(-17)}, {"true", Val::boolean(true)}, {"false", Val::boolean(false)},
			{"two words", Val::str("two words")}, {"2.5", Val::real(2.5)}, {"/a:b", Val::str("/a:b")}, {"x=y", Val::str("x=y")}, {"9223372036854775807", Val::integer(INT64_MAX)}};
		size_t k = c.pick(sizeof vals / sizeof *vals);
		setv = to_variant(vals[k].v);
		if (vals[k].t[0] != '-' && c.coin()) opts.push_back({"--set", vals[k].t});
		else opts.push_back({string("--set=") + vals[k].t});
	} else if (act == SETFILE) {
		opts.push_back({"--set-file", "set"});
		if (c.chance(1, 12)) { set_bad = true; if (c.coin()) mkdir(file("set").c_str(), 0700); }
		else {
			SerializeType tf = formats[c.pick(3)];
			string t = gen_format_text(c, tf, false);
			put("set", t);
			try { setv = read(t, SERIALIZE_GUESS, false); } catch (std::exception &) { set_bad = true; }
		}
	} else if (act == LIST) opts.push_back({"--list"});
	else if (act == LEN) opts.push_back({"--length"});
	// --- output
	size_t fo = c.weighted({4, 4, 4, fi == 4 ? 4u : 1u});
	SerializeType stype = formats[fo];
	static const char *const os[] = {"-j", "-y", "-x", "-b"}, *const ol[] = {"--json", "--yaml", "--xml", "--bundlehdr"};
	if (fo != 0 || c.chance(1, 3)) opts.push_back({option(c, os[fo], ol[fo])});
	if (pout) opts.push_back({option(c, "-p", "--payload")});
	Variant sp;
	sp["pretty"] = true;
	if (c.chance(1, 4)) {
		bool b = c.coin();
		opts.push_back({"--pretty", b ? "true" : "false"});
		sp["pretty"] = b;
	}
	static const char *const io[] = {"indent", "precision", "width"};
	for (int k = 0; k < 3; ++k) if (c.chance(1, 8)) {
		int n = (int)c.range(0, 17);
		opts.push_back({string("--") + io[k], vp::fmt("%d", n)});
		sp[io[k]] = n;
	}
	static const std::vector<string> ss = {"any", "plain", "single quoted", "double quoted", "folded"}, cs = {"any", "block", "flow"};
	if (c.chance(1, 10)) { string v = c.oneof(ss); opts.push_back({"--scalar-style", v}); sp["scalar_style"] = v; }
	if (c.chance(1, 10)) { string v = c.oneof(cs); opts.push_back({"--map-style", v}); sp["map_style"] = v; }
	if (c.chance(1, 10)) { string v = c.oneof(cs); opts.push_back({"--list-style", v}); sp["list_style"] = v; }
	if (c.chance(1, 12)) { bool b = c.coin(); opts.push_back({"--implicit-document-begin", b ? "true" : "false"}); sp["implicit_document_begin"] = b; }
	if (c.chance(1, 12)) { bool b = c.coin(); opts.push_back({"--implicit-document-end", b ? "true" : "false"}); sp["implicit_document_end"] = b; }
	size_t outk = c.weighted({12, 6, 1});            // stdout, a file, a file that cannot be created
	if (outk == 1) { opts.push_back({option(c, "-o", "--out"), "out"}); if (c.coin()) put("out", string(c.range(1, 300), 'Z')); }
	if (outk == 2) opts.push_back({option(c, "-o", "--out"), "nowhere/out"});
	bool clash = false;                              // mutually exclusive options
	if (c.chance(1, 20)) {
		clash = true;
		if (act && c.coin()) opts.push_back({act == LIST ? "--length" : "--list"});
		else if (c.coin() && fo) opts.push_back({os[fo % 3 + 1]});
		else if (fi) opts.push_back({is[fi % 4 + 1]});
		else clash = false;
	}
	long fsize = c.chance(1, 12) ? (long)c.range(0, 400) : -1;

	// --- what the library does
	bool fails = set_bad || outk == 2 || clash;
	string want, why = set_bad ? "set file" : outk == 2 ? "output file" : clash ? "options" : "";
	bool changed = fi == 0 ? act != NONE || with_path || ext : itype != stype || act != NONE || with_path || ext || with_schema;
	size_t nodes = 0;
	for (size_t i = 0; i < texts.size() && !fails; ++i) try {
		if (bad[i]) { fails = true; why = "input file"; break; }
		Variant d = read(texts[i], itype, pin);
		if (ext == 1) d = FlattenPath(d, ep); else if (ext == 2) d = ExpandPath(d, ep);
		if (schema_bad) { fails = true; why = "schema file"; break; }
		for (auto &s : schemas) if (SchemaValidate(to_variant(s), d).Error()) { fails = true; why = "validation"; break; }
		if (fails) break;
		if (act == SET || act == SETFILE) { if (with_path) d.SetPath(path, setv.Copy()); else d = setv.Copy(); }
		else if (with_path) d = d.GetPath(path);
		if (d.IsMap() || d.IsList()) nodes += d.Size();
		if (act == LIST) for (Variant::ConstMapIterator k(d.MapBegin()), e(d.MapEnd()); k != e; ++k) want += k->first + "\n";
		else if (act == LEN) want += vp::fmt("%u\n", d.Size());
		else if (pout) want += SerializeWithPayload(d, stype, sp);
		else want += Serialize(d, stype, sp) + "\n";
	} catch (std::exception &x) { fails = true; why = string("library: ") + x.what(); }
	if (!fails && fsize >= 0 && want.size() > (size_t)fsize) { fails = true; why = "output limit"; }

	std::vector<string> args;
	for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[i - 1 - c.pick(i)]);
	size_t at = c.pick(opts.size() + 1);             // the positionals may stand among the options
	for (size_t i = 0; i <= opts.size(); ++i) {
		if (i == at) args.insert(args.end(), names.begin(), names.end());
		if (i < opts.size()) args.insert(args.end(), opts[i].begin(), opts[i].end());
	}
	if (c.verbose) {
		string l = "varsh";
		for (auto &a : args) l += " " + vp::quote(a);
		c.note("%s", l.c_str());
		for (size_t i = 0; i < texts.size(); ++i) c.note("%s%s: %s", nfiles ? names[i].c_str() : "stdin", bad[i] == 1 ? " (missing)" : bad[i] ? " (directory)" : "", vp::quote(texts[i]).c_str());
		for (size_t i = 0; i < schemas.size(); ++i) c.note("schema %zu: %s", i, val_str(schemas[i]).c_str());
		if (act == SETFILE) { string t; if (get("set", t)) c.note("set: %s", vp::quote(t).c_str()); else c.note("set: unreadable"); }
		if (fsize >= 0) c.note("output limited to %ld bytes", fsize);
		c.note("expected: %s", fails ? ("failure (" + why + ")").c_str() : vp::quote(want).c_str());
	}
	c.label(fails ? "fails:" + why.substr(0, why.find(':')) : "succeeds");
	for (auto &a : args) if (a.find('\0') != string::npos) throw vp::Discard();
	Run r = run(args, fsize);
	c.evals(1);
	if (r.code != 0 && !fails) vp::fail(vp::fmt("the tool failed with status %d where the library succeeds: %s", r.code, r.err.substr(0, 400).c_str()));
	if (r.code == 0 && fails) vp::fail(vp::fmt("the tool reported success where it must fail (%s); output %s", why.c_str(), vp::quote(r.out, 200).c_str()));
	if (!fails) {
		string out;
		if (outk == 1) {
			if (!get("out", out)) vp::fail("no output file was written");
			VP_CHECK(r.out.empty(), "output on standard output besides the output file: %s", vp::quote(r.out).c_str());
		} else out = r.out;
		if (out != want) vp::fail(vp::fmt("output %s, the library gives %s", vp::quote(out).c_str(), vp::quote(want).c_str()));
	}
	// the inputs are only read
	for (size_t i = 0; i < texts.size(); ++i) if (!bad[i]) {
		string t;
		VP_CHECK(get(nfiles ? names[i] : string("stdin"), t) && t == texts[i], "input %zu was changed", i);
	}
	if (changed && nodes) {
		uint64_t h = vp::hash64(want);
		for (auto &a : args) h = vp::hashmix(h, vp::hash64(a));
		c.nontrivial(h);
	}
}

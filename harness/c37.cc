// C37: reading costs memory and time in proportion to the input.
#include "texts.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Payload.h>
#include <algorithm>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the text has at least 2000 bytes, or parts that refer to each other, or claims a length";

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
namespace {
bool armed;
size_t total, largest;
[[noreturn]] void runaway() { armed = false; fprintf(stderr, "reading allocated more than 1 GB\n"); abort(); }
void on_malloc(const volatile void *, size_t n) { if (armed) { total += n; if (n > largest) largest = n; if (total > (1u << 30)) runaway(); } }
void on_free(const volatile void *) {}
double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

string rep(const string &s, size_t n) { string r; r.reserve(s.size() * n); for (size_t i = 0; i < n; ++i) r += s; return r; }
// one kind of thing, many times or very long
struct Kind { size_t kind, unit; bool coin; };
string long_text(SerializeType f, size_t n, const Kind &k, string &what) {
	static const string units[] = {"a", "\\n", "\\u00e9", "\xc3\xa9", " ", "ab ", "x: ", "1", "&amp;", "''"};
	const string &u = units[k.unit % 10];
	switch (f) {
	case SERIALIZE_JSON:
		switch (k.kind % 14) {
		case 12: n = std::min<size_t>(n, 6000); what = "lists in lists"; return rep("[", n / 2) + rep("]", n / 2);
		case 13: n = std::min<size_t>(n, 6000); what = "maps in maps"; return rep("{\"a\":", n / 6) + "1" + rep("}", n / 6);
		case 0: what = "long string"; return "[\"" + rep(u, n / u.size() + 1) + "\"]";
		case 1: what = "long key"; return "{\"" + rep(u, n / u.size() + 1) + "\": 1}";
		case 2: what = "many elements"; return "[" + rep("0,", n / 2) + "0]";
		case 3: what = "many strings"; return "[" + rep("\"a\",", n / 4) + "\"\"]";
		case 4: what = "many lists"; return "[" + rep("[],", n / 3) + "{}]";
		case 5: { what = "many keys"; string r = "{"; for (size_t i = 0; i < n / 8; ++i) r += vp::fmt("\"%zu\":%zu,", i, i % 10); return r + "\"z\":0}"; }
		case 6: what = "long white space"; return rep(k.coin ? " " : "\n", n) + "[" + rep(" \t", n / 4) + "]";
		case 7: what = "long number"; return "[" + rep("1", n) + "]";
		case 8: what = "long fraction"; return "[0." + rep("1", n) + "]";
		case 9: what = "one key often"; return "{" + rep("\"a\":[1],", n / 8) + "\"a\":1}";
		case 10: what = "many comments"; return rep("/* c */", n / 7) + "[]";
		default: what = "not closed"; return "[" + rep("{\"a\":[1]},", n / 10);
		}
	case SERIALIZE_YAML:
		switch (k.kind % 18) {
		case 16: n = std::min<size_t>(n, 800); what = "lists in lists"; return k.coin ? rep("- ", n / 2) + "a\n" : rep("[", n / 2) + rep("]", n / 2) + "\n";
		case 17: n = std::min<size_t>(n, 800); what = "maps in maps"; return rep("{a: ", n / 5) + "1" + rep("}", n / 5) + "\n";
		case 0: what = "long plain"; return "- " + rep("ab ", n / 3) + "x\n";
		case 1: what = "long quoted"; return "- \"" + rep("a\\n", n / 3) + "\"\n";
		case 2: what = "long block"; return "- |\n" + rep("  line\n", n / 7);
		case 3: what = "long key"; return "? " + rep("k", n) + "\n: 1\n";
		case 4: what = "many elements"; return rep("- a\n", n / 4);
		case 5: { what = "many keys"; string r; for (size_t i = 0; i < n / 8; ++i) r += vp::fmt("k%zu: %zu\n", i, i % 10); return r + "z: 0\n"; }
		case 6: what = "many flow"; return "[" + rep("a, ", n / 3) + "b]\n";
		case 7: what = "comments"; return rep("# comment\n", n / 10) + "- 1\n";
		case 8: { what = "many anchors"; string r; for (size_t i = 0; i < n / 12; ++i) r += vp::fmt("- &a%zu x\n", i); return r + "- *a0\n"; }
		case 9: { what = "many aliases"; return "- &a [x, y]\n" + rep("- *a\n", n / 5); }
		case 10: what = "long tag"; return "- !<tag:" + rep("x", n) + "> 1\n";
		case 11: what = "long number"; return "- " + rep("1", n) + "\n";
		case 12: what = "blank lines"; return "- 1\n" + rep("\n", n) + "- 2\n";
		case 13: what = "long binary"; return "- !!binary " + rep("QUJD", n / 4) + "\n";
		case 14: what = "one key often"; return rep("a: [1]\n", n / 7);
		default: what = "not closed"; return "[" + rep("{a: [1]}, ", n / 10);
		}
	case SERIALIZE_XMLPLIST: {
		string b = "<plist version=\"1.0\">", e = "</plist>";
		switch (k.kind % 14) {
		case 12: n = std::min<size_t>(n, 3000); what = "lists in lists"; return b + rep("<array>", n / 15) + rep("</array>", n / 15) + e;
		case 13: n = std::min<size_t>(n, 5000); what = "maps in maps"; return b + rep("<dict><key>a</key>", n / 25) + "<true/>" + rep("</dict>", n / 25) + e;
		case 0: what = "long string"; return b + "<string>" + rep("text ", n / 5) + "</string>" + e;
		case 1: what = "references"; return b + "<string>" + rep("&lt;", n / 4) + "</string>" + e;
		case 2: what = "pieces"; return b + "<string>" + rep("a<![CDATA[b]]>", n / 14) + "</string>" + e;
		case 3: what = "many elements"; return b + "<array>" + rep("<true/>", n / 7) + "</array>" + e;
		case 4: { what = "many keys"; string r = b + "<dict>"; for (size_t i = 0; i < n / 30; ++i) r += vp::fmt("<key>%zu</key><false/>", i); return r + "</dict>" + e; }
		case 5: what = "long data"; return b + "<data>" + rep(k.coin ? "QUJD" : "QU\nJD ", n / 4) + "</data>" + e;
		case 6: what = "comments"; return rep("<!-- c -->", n / 10) + b + "<true/>" + e;
		case 7: what = "white space"; return b + "<array>" + rep(" \n", n / 2) + "<true/></array>" + e;
		case 8: what = "long number"; return b + "<integer>" + rep("1", n) + "</integer>" + e;
		case 9: what = "one key often"; return b + "<dict>" + rep("<key>a</key><true/>", n / 19) + "</dict>" + e;
		case 10: what = "comments inside text"; return b + "<string>" + rep("a<!-- c -->", n / 11) + "</string>" + e;
		default: what = "not closed"; return b + rep("<array><true/></array>", n / 22);
		}
	}
	default:
		switch (k.kind % 5) {
		case 0: what = "long line"; return "a: " + rep("x", n) + "\nb: 1\n";
		case 1: what = "long key"; return rep("k", n) + ": 1\n";
		case 2: { what = "many lines"; string r; for (size_t i = 0; i < n / 8; ++i) r += vp::fmt("k%zu: %zu\n", i, i % 10); return r; }
		case 3: what = "long list"; return "a: [" + rep("1 ", n / 2) + "]\n";
		default: what = "blank lines"; return "a: 1\n" + rep("\n", n);
		}
	}
}
// parts that refer to each other, each naming the one before several times
string growing(Ctx &c, SerializeType f, string &what) {
	size_t levels = 2 + c.pick(18), width = 2 + c.pick(9);
	what = vp::fmt("%zu levels of %zu references", levels, width);
	string t;
	if (f == SERIALIZE_YAML) {
		bool map = c.coin();
		for (size_t i = 0; i < levels; ++i) {
			t += vp::fmt("l%zu: &a%zu ", i, i) + (map ? "{" : "[");
			for (size_t k = 0; k < width; ++k) t += (k ? ", " : "") + (map ? vp::fmt("k%zu: ", k) : string()) + (i ? vp::fmt("*a%zu", i - 1) : string("lol"));
			t += map ? "}\n" : "]\n";
		}
		return t;
	}
	bool attr = c.chance(1, 4), inner = c.coin();
	t = "<?xml version=\"1.0\"?><!DOCTYPE plist [";
	for (size_t i = 0; i < levels; ++i) {
		t += vp::fmt("<!ENTITY a%zu \"", i);
		for (size_t k = 0; k < width; ++k) t += i ? vp::fmt("&a%zu;", i - 1) : string("lol");
		t += "\">";
	}
	string r = vp::fmt("&a%zu;", levels - 1);
	return t + "]><plist" + (attr ? " version=\"" + r + "\"" : "") + ">" + (inner ? "<string>" + r + "</string>" : "<array><string>" + r + "</string></array>") + "</plist>";
}
}
void vp_case(Ctx &c) {
	static bool once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
	(void)once;
	static const SerializeType fs[] = {SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR};
	SerializeType f = fs[c.pick(4)];
	string t, what;
	Kind kind;
	size_t n = 0;
	bool payload = false, refers = false, claims = false;
	switch (c.weighted({6, 2, 1, 1})) {
	case 0:
		n = c.coin() ? 1 + c.pick(2000) : c.chance(1, 40) ? 1 + c.pick(400000) : 1 + c.pick(60000);
		kind.kind = c.pick(240); kind.unit = c.pick(10); kind.coin = c.coin();
		t = long_text(f, n, kind, what);
		break;
	case 1: f = c.coin() ? SERIALIZE_YAML : SERIALIZE_XMLPLIST; t = growing(c, f, what); refers = true; break;
	case 2: {                                         // a length that is not there
		payload = claims = true;
		unsigned long n = c.coin() ? c.pick(100000) : 1000000 + c.pick(150000000);
		switch (f) {
		case SERIALIZE_JSON: t = vp::fmt("{\"payload\": {\"length\": %lu}}", n); break;
		case SERIALIZE_YAML: t = vp::fmt("payload: {length: %lu}\n", n); break;
		case SERIALIZE_XMLPLIST: t = vp::fmt("<plist version=\"1.0\"><dict><key>payload</key><dict><key>length</key><integer>%lu</integer></dict></dict></plist>", n); break;
		default: t = vp::fmt("payload.length: %lu\n", n);
		}
		t += string(1, '\0') + string(c.pick(3000), 'p');
		what = vp::fmt("claims %lu bytes", n);
		break; }
	default: t = gen_format_text(c, f, true); what = "generated";
		if (c.coin()) damage_text(c, t, f);
	}
	if (!payload && c.chance(1, 12)) { payload = true; t += string(1, '\0'); }
	static const char *const ways[] = {"string", "string stream", "FILE"};
	size_t how = c.pick(3);
	bool guess = !payload && f != SERIALIZE_BUNDLEHDR && c.chance(1, 4);
	SerializeType g = guess ? SERIALIZE_GUESS : f;
	c.note("%s%s%s, %s, from a %s, %zu bytes: %s", format_name(f), guess ? " guessed" : "", payload ? " with payload" : "", what.c_str(), ways[how], t.size(), vp::quote(t, 300).c_str());
	bool ok = false;
	auto read = [&](const string &x) -> double {
		std::istringstream is(how == 1 ? x : "");
		FILE *fp = how == 2 ? fmemopen(x.empty() ? (void *)" " : (void *)x.data(), x.empty() ? 1 : x.size(), "r") : 0;
		if (how == 2 && !fp) throw vp::Discard();
		total = largest = 0;
		double t0 = cpu();
		{
			Variant v;
			armed = true;
			try {
				switch (how) {
				case 0: v = payload ? DeserializeWithPayload(x, f) : Deserialize(x, g); break;
				case 1: v = payload ? DeserializeWithPayloadFile(is.rdbuf(), f) : DeserializeFile(is.rdbuf(), g); break;
				default: v = payload ? DeserializeWithPayloadFile(fp, f) : DeserializeFile(fp, g);
				}
				ok = true;
			} catch (std::exception &) { ok = false; }
		}
		armed = false;
		double used = cpu() - t0;
		if (fp) fclose(fp);
		return used;
	};
	double best = 1e9, limit = 1 + 20e-6 * t.size();
	// libxml2 stops the expansion of entities at ten million characters
	size_t room = (refers && f == SERIALIZE_XMLPLIST ? 150u << 20 : 3u << 20) + 1500 * t.size();
	for (int tries = 0; tries < 3 && best > limit; ++tries) {
		double used = read(t);
		if (used < best) best = used;
		VP_CHECK(total <= room, "reading %zu bytes (%s: %s) from a %s allocated %zu bytes, the largest piece %zu", t.size(), format_name(f), what.c_str(), ways[how], total, largest);
	}
	VP_CHECK(best <= limit, "reading %zu bytes (%s: %s) from a %s took %.1f s", t.size(), format_name(f), what.c_str(), ways[how], best);
	// a quarter of it takes about a quarter, a tenth allowing for the steps in which buffers grow
	if (n >= 8000) {
		size_t all = total;
		string w, q = long_text(f, n / 4, kind, w);
		if (payload) q += string(1, '\0');
		read(q);
		VP_CHECK(all <= 10 * total + (256u << 10), "reading %zu bytes (%s: %s) from a %s allocated %zu bytes, but %zu bytes of the same kind only %zu", t.size(), format_name(f), what.c_str(), ways[how], all, q.size(), total);
		c.label("two sizes");
		// four times the text takes about four times as long, not sixteen times
		if (best > 0.3) {
			double small = read(q);
			for (int tries = 0; tries < 2; ++tries) { double used = read(q); if (used < small) small = used; }
			for (int tries = 0; tries < 3 && best > 11 * small; ++tries) { double used = read(t); if (used < best) best = used; }
			VP_CHECK(best <= 11 * small, "reading %zu bytes (%s: %s) from a %s took %.3f s, but %zu bytes of the same kind only %.3f s", t.size(), format_name(f), what.c_str(), ways[how], best, q.size(), small);
			c.label("two times");
		}
	}
	c.evals(1);
	c.label(format_name(f));
	c.label(ok ? "read" : "refused");
	if (t.size() >= 2000 || refers || claims) c.nontrivial(vp::hashmix(vp::hash64(t), how));
}

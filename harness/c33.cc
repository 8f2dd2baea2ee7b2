// C33: reading a document depends on nothing but its bytes.
#include "texts.h"
#include <Variant/Parser.h>
#include <Variant/Payload.h>
#include <algorithm>
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace libvariant;
using vp::Ctx;
using std::string;
const char *vp_rule = "the text names a file of the changed surroundings, or declares an entity";

namespace {
string dir;
const char *const names[] = {"one", "two.xml", "three.dtd"};
void put(const string &n, const string &t) {
	FILE *f = fopen((dir + "/" + n).c_str(), "wb");
	if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f)) { fprintf(stderr, "cannot write\n"); _exit(3); }
}
std::vector<string> listing() {
	std::vector<string> r;
	DIR *d = opendir(dir.c_str());
	while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name);
	closedir(d);
	std::sort(r.begin(), r.end());
	return r;
}
struct Res { bool err = false; Val v; string why; };
Res parse(const string &t, SerializeType f, bool payload) {
	Res r;
	try { r.v = from_variant(payload ? DeserializeWithPayload(t, f) : Deserialize(t, f)); }
	catch (std::exception &x) { r.err = true; r.why = x.what(); }
	return r;
}
string where(Ctx &c) {
	string n = names[c.pick(3)];
	switch (c.pick(3)) {
	case 0: return dir + "/" + n;
	case 1: return "file://" + dir + "/" + n;
	default: return n;                            // relative to the working directory
	}
}
struct XML {
	std::vector<string> ents;
	string decl(Ctx &c) {
		string r, q = c.coin() ? "\"" : "'";
		size_t n = 0;
		do {
			string name = vp::fmt("e%zu", n++);
			switch (c.weighted({4, 3, 2, 1, 1})) {
			case 0: r += "<!ENTITY " + name + " SYSTEM " + q + where(c) + q + ">"; ents.push_back(name); break;
			case 1: {
				string v = c.coin() ? "text" : c.coin() ? "<integer>7</integer>" : "a&#65;b";
				if (!ents.empty() && c.coin()) v += "&" + ents[c.pick(ents.size())] + ";";
				r += "<!ENTITY " + name + " " + q + v + q + ">"; ents.push_back(name); break; }
			case 2: r += "<!ENTITY % " + name + " SYSTEM " + q + where(c) + q + "> %" + name + ";"; if (c.coin()) ents.push_back("late"); break;
			case 3: r += "<!ENTITY " + name + " PUBLIC " + q + "-//x//y" + q + " " + q + where(c) + q + ">"; ents.push_back(name); break;
			case 4: r += "<!ENTITY % " + name + " " + q + "<!ENTITY in" + name + " 'v'>" + q + "> %" + name + ";"; ents.push_back("in" + name); break;
			}
			r += "\n";
		} while (n < 4 && c.more(2));
		return r;
	}
	string text(Ctx &c) {
		string r;
		do r += !ents.empty() && c.chance(2, 3) ? "&" + ents[c.pick(ents.size())] + ";" : c.coin() ? "plain" : "&lt;x&#66;"; while (c.more(1));
		return r;
	}
	string value(Ctx &c, unsigned depth) {
		switch (c.pick(depth > 2 ? 4 : 6)) {
		case 0: return "<string>" + text(c) + "</string>";
		case 1: return "<integer>" + (c.coin() ? string("12") : text(c)) + "</integer>";
		case 2: return "<data>" + text(c) + "</data>";
		case 3: return ents.empty() ? string("<true/>") : "&" + ents[c.pick(ents.size())] + ";";
		case 4: { string r = "<array>"; while (c.more(2)) r += value(c, depth + 1); return r + "</array>"; }
		default: { string r = "<dict>"; while (c.more(2)) r += "<key>" + (c.coin() ? string("k") : text(c)) + "</key>" + value(c, depth + 1); return r + "</dict>"; }
		}
	}
};
}
void vp_case(Ctx &c) {
	dir = vp::scratch();
	for (auto n : names) unlink((dir + "/" + n).c_str());
	if (chdir(dir.c_str())) { perror("chdir"); _exit(3); }
	static const SerializeType formats[] = {SERIALIZE_XMLPLIST, SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_BUNDLEHDR};
	SerializeType f = formats[c.weighted({10, 1, 1, 1})];
	string t;
	bool refers = true;
	if (f == SERIALIZE_XMLPLIST && c.chance(7, 8)) {
		XML x;
		string ext = c.chance(1, 3) ? " SYSTEM \"" + where(c) + "\"" : c.chance(1, 4) ? " PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"" + where(c) + "\"" : "";
		string decl = c.chance(9, 10) ? " [" + x.decl(c) + "]" : "";
		t = (c.coin() ? "<?xml version=\"1.0\"?>" : c.coin() ? "<?xml version=\"1.0\" standalone=\"yes\"?>" : "") + string("<!DOCTYPE plist") + ext + decl + ">\n";
		if (c.chance(1, 8)) t += "<?xml-stylesheet href=\"" + where(c) + "\"?>";
		string v = x.value(c, 0);
		if (c.chance(1, 8)) v = "<array xmlns:xi=\"http://www.w3.org/2001/XInclude\"><xi:include href=\"" + where(c) + "\" parse=\"text\"/>" + v + "</array>";
		t += c.coin() ? "<plist version=\"1.0\">" + v + "</plist>" : v;
	} else {
		t = gen_format_text(c, f, false);
		if (f == SERIALIZE_YAML && c.coin()) t = "!include " + where(c) + "\n";
		else if (f == SERIALIZE_JSON && c.coin()) t = "{\"$ref\": \"" + where(c) + "\", \"include\": \"" + where(c) + "\"}";
		else if (f == SERIALIZE_BUNDLEHDR && c.coin()) t = "include: " + where(c) + "\npayload.data: @" + where(c) + "\n";
		else refers = false;
	}
	SerializeType g = f != SERIALIZE_BUNDLEHDR && c.chance(1, 4) ? SERIALIZE_GUESS : f;
	bool payload = c.chance(1, 10);
	if (payload) t += string(1, '\0');
	c.note("%s: %s", format_name(f), vp::quote(t, 1500).c_str());
	// nothing there
	Res a = parse(t, g, payload);
	// files with contents
	static const std::vector<string> contents = {"SECRET", "<string>SECRET</string>", "<!ENTITY late \"SECRET\">", "<array><integer>4711</integer></array>", "", "<!ENTITY e0 'SECRET'>", "secret: SECRET\n", "U0VDUkVU"};
	string files;
	for (auto n : names) if (c.chance(5, 6)) { string s = c.oneof(contents); put(n, s); files += string(n) + "=" + vp::quote(s) + " "; }
	bool env = c.coin();
	if (env) { setenv("XML_CATALOG_FILES", "two.xml", 1); setenv("SECRET", "1", 1); }
	c.note("files %s", files.c_str());
	std::vector<string> before = listing();
	Res b = parse(t, g, payload);
	std::vector<string> after = listing();
	if (env) { unsetenv("XML_CATALOG_FILES"); unsetenv("SECRET"); }
	c.evals(2);
	c.label(a.err ? "refused" : "read");
	if (a.err != b.err) vp::fail(vp::fmt("%s when other files exist: %s", b.err ? "fails" : "succeeds", b.err ? b.why.c_str() : val_str(b.v).c_str()));
	if (!val_same(a.v, b.v)) vp::fail(vp::fmt("gives %s, and %s when other files exist", val_str(a.v).c_str(), val_str(b.v).c_str()));
	VP_CHECK(before == after, "reading left other files behind");
	if (refers) c.nontrivial(vp::hash64(t) ^ vp::hash64(files));
}

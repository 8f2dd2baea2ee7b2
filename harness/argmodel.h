// Descriptions of command lines as plain data, with a reference parser.
#ifndef ARGMODEL_H
#define ARGMODEL_H
#include "val.h"
#include <functional>
#include <Variant/ArgParse.h>

typedef std::vector<Val> APath;            // strings and numbers
struct AOpt {
	enum Act { STORE, CONST, TRUE, FALSE, APPEND, COUNT } act = STORE;
	enum Ty { GUESS, INT, UINT, FLOAT, STRING, BOOL } ty = STRING;
	bool positional = false;
	APath path;
	char sh = 0;
	std::string lng, env, pattern, help, title;
	bool hasdef = false, required = false, adv = false;
	Val def, cnst, min, max;               // min/max: Null when there is none
	std::vector<Val> choices;
	int minlen = -1, maxlen = -1, minargs = -1, maxargs = -1;
	bool hasarg() const { return act == STORE || act == APPEND; }
};
struct AGroup { std::string name, title, text; std::vector<unsigned> members; bool excl = false, required = false, adv = false; };
struct ADesc {
	std::vector<AOpt> opts;                // options, then positionals
	std::vector<AGroup> groups;
	bool help = true, config = false;
	std::string about, epilog;
};
struct AOutcome {
	enum K { OK, ERR, HELP, PRINT, OPEN } k = OK;
	Val result;
	std::string why;                       // reason, or text printed
	int code = 0;
};
typedef std::vector<std::string> Argv;
typedef std::map<std::string, std::string> Env;
typedef std::map<std::string, Val> Files;

std::string apath_str(const APath &p);
ADesc gen_desc(vp::Ctx &c);
void build(libvariant::ArgParse &p, const ADesc &d);
Argv gen_argv(vp::Ctx &c, const ADesc &d, bool clean, const std::vector<std::string> &files);
Env gen_env(vp::Ctx &c, const ADesc &d, bool clean);
std::string gen_arg_text(vp::Ctx &c, const AOpt &o, bool clean);
AOutcome ref_parse(const ADesc &d, const Argv &argv, const Env &env, const Files &files);
AOutcome run_parse(libvariant::ArgParse &p, const Argv &argv, const Env &env);
// runs fn with exit() and the standard streams caught
AOutcome run_caught(const std::function<void()> &fn);
std::string desc_str(const ADesc &d);
std::string argv_str(const Argv &a, const Env &e);
#endif

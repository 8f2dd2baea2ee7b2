// Independent RFC 8259 parser (strict), optionally allowing comments between tokens.
#ifndef REFJSON_H
#define REFJSON_H
#include "val.h"
struct RefJson {
	bool comments = false;    // allow block comments between tokens
	bool lenient = false;     // read on after a number that ends in its decimal point
	bool container_root = true;
	// results
	bool ok = false;          // a complete document was read
	size_t used = 0;          // bytes consumed by it (leading blanks included)
	bool bigint = false;      // an integer outside [INT64_MIN, UINT64_MAX] occurred
	bool lone_surrogate = false;
	bool nul = false;         // \u0000 inside a string
	bool bad_utf8 = false;
	bool huge = false;        // a float overflowed
	bool dupkey = false;
	bool odd_comment = false; // a control character inside a comment
	bool dot_end = false;     // a number such as 1. (only when lenient)
	unsigned max_depth = 0;
	std::string why;
	Val value;
	bool parse(const std::string &text);   // prefix: text may continue after the document
private:
	const std::string *t = 0;
	size_t p = 0;
	bool ws();
	bool val(Val &v, unsigned depth);
	bool str(std::string &s);
	bool num(Val &v);
	bool bad(const char *w) { if (why.empty()) why = w; return false; }
};
std::string ref_base64(const std::string &bytes);
bool ref_unbase64(const std::string &text, std::string &bytes);   // skips foreign characters
#endif

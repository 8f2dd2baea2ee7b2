// Plain data model of a document, independent of the code under test, with
// generators and conversions.
#ifndef VAL_H
#define VAL_H
#include "vp.h"
#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include <string>
#include <vector>
#include <map>

struct Val {
	enum T { Null, Bool, Int, UInt, Float, Str, List, Map, Blob };
	T t = Null;
	bool b = false;
	int64_t i = 0;
	uint64_t u = 0;
	double d = 0;
	std::string s;                  // string text or blob bytes
	std::vector<size_t> cuts;       // blob: lengths of all buffers but the last
	bool noparts = false;           // blob made of zero buffers (bytes empty)
	std::vector<Val> l;
	std::map<std::string, Val> m;

	static Val null() { return Val(); }
	static Val boolean(bool x) { Val v; v.t = Bool; v.b = x; return v; }
	static Val integer(int64_t x) { Val v; v.t = Int; v.i = x; return v; }
	static Val uinteger(uint64_t x) { Val v; v.t = UInt; v.u = x; return v; }
	static Val real(double x) { Val v; v.t = Float; v.d = x; return v; }
	static Val str(const std::string &x) { Val v; v.t = Str; v.s = x; return v; }
	static Val blob(const std::string &x) { Val v; v.t = Blob; v.s = x; return v; }
	static Val list() { Val v; v.t = List; return v; }
	static Val map() { Val v; v.t = Map; return v; }
	bool isnum() const { return t == Int || t == UInt || t == Float; }
};

// exact: same type and content at every position (floats by bits, NaN==NaN)
bool val_same(const Val &a, const Val &b);
// as values: numbers by mathematical value across types, NaN equals NaN
bool val_equal(const Val &a, const Val &b);
// as values, with the type differences a text format may introduce:
// whole floats and in-range unsigned values may come back as another number type
bool val_equal_roundtrip(const Val &a, const Val &back, bool whole_float_as_int);
int num_cmp(const Val &a, const Val &b);       // -1 0 1, 2 unordered (NaN)
std::string val_str(const Val &v);             // readable, exact rendering
uint64_t val_hash(const Val &v);
size_t val_nodes(const Val &v);
size_t val_depth(const Val &v);
Val val_blob_parts(const std::string &bytes, const std::vector<size_t> &cuts);

// conversion through the public API
libvariant::Variant to_variant(const Val &v);
Val from_variant(const libvariant::Variant &v);
libvariant::BlobPtr make_blob(const std::string &bytes, const std::vector<size_t> &cuts, bool noparts = false);
std::string blob_bytes(libvariant::ConstBlobPtr b);

// path to the first difference, for messages
std::string val_diff(const Val &a, const Val &b);

// ---- generators
enum TextKind { TK_ANY, TK_ASCII, TK_XML, TK_UTF8, TK_YAML };
struct GenOpt {
	TextKind text = TK_UTF8;
	bool blobs = true;
	bool floats = true;
	bool nonfinite = false;
	bool uints = true;
	bool nuls = false;             // NUL inside strings/keys
	bool empty_keys = true;
	unsigned maxdepth = 5;
	unsigned breadth = 3;
	bool scalarlike = true;
	bool longstr = true;
	bool blobparts = true;
	bool simple_keys = false;
	bool big = true;               // occasional large containers
};
std::string gen_text(vp::Ctx &c, const GenOpt &o);
std::string gen_key(vp::Ctx &c, const GenOpt &o);
std::string gen_bytes(vp::Ctx &c, unsigned avg);
int64_t gen_int(vp::Ctx &c);
uint64_t gen_uint(vp::Ctx &c);
double gen_double(vp::Ctx &c, bool nonfinite);
Val gen_scalar(vp::Ctx &c, const GenOpt &o);
Val gen_val(vp::Ctx &c, const GenOpt &o, unsigned depth = 0);
Val gen_container(vp::Ctx &c, const GenOpt &o);
Val gen_map(vp::Ctx &c, const GenOpt &o);
Val gen_blob(vp::Ctx &c, const GenOpt &o);
// changes the first byte of the memory a blob holds
void flip_blob(libvariant::Variant v);
Val gen_large(vp::Ctx &c, bool blob);       // a text or blob of 10 to 200 kB
void utf8_put(std::string &s, uint32_t cp);
bool utf8_valid(const std::string &s);
bool xml_text_ok(const std::string &s);
// random small edit of a document, to get near-equal pairs
void mutate_val(vp::Ctx &c, Val &v, const GenOpt &o);
#endif

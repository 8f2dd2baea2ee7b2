// Reference model of variant handles: cells hold scalars by value and lists
// and maps by shared reference.  Knows nothing about the library's internals.
#ifndef CORE_H
#define CORE_H
#include "val.h"
#include <memory>
#include <set>

struct MObj;
struct Cell;
typedef std::shared_ptr<Cell> CellP;
struct MV {                       // scalars in `s`, containers in `o`
	Val s;
	std::shared_ptr<MObj> o;
	bool islist() const;
	bool ismap() const;
	bool isnull() const { return !o && s.t == Val::Null; }
};
struct Cell { MV v; };
struct MObj {
	bool list = true;
	std::vector<CellP> l;
	std::map<std::string, CellP> m;
};
inline bool MV::islist() const { return o && o->list; }
inline bool MV::ismap() const { return o && !o->list; }

struct Elem {                     // one path element
	bool key; std::string k; unsigned i;
	Elem(const std::string &s) : key(true), k(s), i(0) {}
	Elem(unsigned n) : key(false), i(n) {}
};
typedef std::vector<Elem> EPath;
std::string epath_str(const EPath &p);
libvariant::Path to_path(const EPath &p);

MV mv_scalar(const Val &v);
MV mv_list();
MV mv_map();
MV mv_from(const Val &v);                       // deep, unshared
Val mv_val(const MV &v);                        // deep, unshared
MV mv_copy(const MV &v);
bool mv_reaches(const MV &v, const MObj *o);    // o is v's container or inside it
CellP m_child(const CellP &c, const Elem &e);   // null when missing or wrong type
CellP m_lookup(CellP c, const EPath &p, size_t from = 0);
// Could element p[from..] of c be written?  (missing parts count as null)
bool m_writable(const CellP &c, const EPath &p, size_t from = 0);
// the cell at the path, created when missing; only call when writable
CellP m_create(CellP c, const EPath &p, size_t from = 0);

// Compare a variant with a model cell: types, contents, and which containers
// are the same container.  Returns a description of the difference or "".
struct Same {
	std::map<const MObj*, const void*> fwd;
	std::map<const void*, const MObj*> back;
	std::string check(const libvariant::Variant &v, const MV &m, const std::string &where);
};
libvariant::Variant mv_variant(const MV &v);    // unshared

extern const std::vector<std::string> core_keys;
Val core_scalar(vp::Ctx &c);
Elem core_elem(vp::Ctx &c, const CellP &at);    // mostly an existing element
EPath core_path(vp::Ctx &c, const CellP &root, unsigned avg);
#endif

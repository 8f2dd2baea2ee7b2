// RFC 6901 and RFC 6902 on plain values, written from the RFCs.
#ifndef REFPATCH_H
#define REFPATCH_H
#include "val.h"
typedef std::vector<std::string> Tokens;
// false: not a pointer.  doubtful: contains "~" not followed by 0 or 1 (RFC 6901 calls it an error, it may be taken literally)
bool ptr_parse(const std::string &p, Tokens &t, bool &doubtful);
std::string ptr_form(const Tokens &t);
Val *ptr_find(Val &doc, const Tokens &t);
// the operations return false, and leave doc alone, when the RFC calls for an error
bool ref_add(Val &doc, const std::string &ptr, const Val &x);
bool ref_remove(Val &doc, const std::string &ptr, Val *removed = 0);
bool ref_replace(Val &doc, const std::string &ptr, const Val &x);
bool ref_move(Val &doc, const std::string &from, const std::string &to);
bool ref_copy(Val &doc, const std::string &from, const std::string &to);
bool ref_test(Val &doc, const std::string &ptr, const Val &x);
// operation maps; false when malformed or failing, doc then unchanged
bool ref_patch_op(Val &doc, const Val &op);
bool ref_patch(Val &doc, const Val &ops);

Val gen_patch_doc(vp::Ctx &c, unsigned depth = 0);
Val gen_patch_value(vp::Ctx &c);
// mostly hits something in doc; index_past: also just behind lists
std::string gen_pointer(vp::Ctx &c, const Val &doc);
#endif

// Independent statement of the scalar patterns (YAML core schema, white space around allowed).
#ifndef REFGUESS_H
#define REFGUESS_H
#include "val.h"
Val ref_guess(const std::string &text);
std::string gen_scalar_text(vp::Ctx &c);      // texts near the patterns, no line breaks
// equal, where an integer may be held signed or unsigned
bool guess_same(const Val &want, const Val &got);
#endif

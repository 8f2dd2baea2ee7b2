// Generated document texts in every input format, and damage to them.
#ifndef TEXTS_H
#define TEXTS_H
#include "val.h"
// params for the emitter of the format, possibly null
libvariant::Variant gen_params(vp::Ctx &c, libvariant::SerializeType f);
// a flat map the bundle header format can represent
Val gen_bundle_map(vp::Ctx &c);
// a value the format can represent
Val gen_val_for(vp::Ctx &c, libvariant::SerializeType f);
// text written by the library or by hand-made grammars for the format
std::string gen_format_text(vp::Ctx &c, libvariant::SerializeType f, bool large_ok);
std::string gen_yaml_text(vp::Ctx &c);
std::string gen_xml_text(vp::Ctx &c);
std::string gen_bundle_text(vp::Ctx &c);
void damage_text(vp::Ctx &c, std::string &t, libvariant::SerializeType f);
const char *format_name(libvariant::SerializeType f);
#endif

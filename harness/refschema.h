// JSON Schema draft 4 on plain values, written from the specification, with
// generators for schemas and instances.
#ifndef REFSCHEMA_H
#define REFSCHEMA_H
#include "val.h"
#include <functional>
enum Tri { NO = 0, YES = 1, OPEN = 2 };        // OPEN: left to the implementation
// resolves a "$ref" text seen in the schema; returns 0 when it cannot
typedef std::function<const Val *(const std::string &)> RefResolver;
Tri ref_schema(const Val &schema, const Val &inst, const RefResolver *refs = 0, unsigned depth = 0);

extern bool ref_schema_deep;                   // set when the nesting bound of ref_schema was met
extern unsigned ref_schema_limit;              // that bound

struct SchemaGen {
	unsigned maxdepth = 4;
	bool formats = true;
	// when set, called now and then to produce a "$ref" schema
	std::function<Val(vp::Ctx &)> ref;
};
Val gen_schema(vp::Ctx &c, const SchemaGen &o, unsigned depth = 0);
Val gen_instance(vp::Ctx &c, const Val &schema, unsigned depth = 0);
std::string gen_regex(vp::Ctx &c);
#endif

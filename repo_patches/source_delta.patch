From db9910bbb02586313b74a8e22da6e40ab08d3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:59 +0000
Subject: [PATCH 001/114] fix: keep null characters in strings when serialising
 to JSON and YAML

A string or key with an embedded null character was cut at that character,
because the emitter interface passed strings as C strings.
---
 include/Variant/Emitter.h | 3 +++
 src/Emitter.cc            | 6 +++++-
 src/JSONEmitter.cc        | 5 +++++
 src/JSONEmitter.h         | 1 +
 src/YAMLEmitter.cc        | 4 ++++
 src/YAMLEmitter.h         | 1 +
 6 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/Variant/Emitter.h b/include/Variant/Emitter.h
index adff352..9ec60c6 100644
--- a/include/Variant/Emitter.h
+++ b/include/Variant/Emitter.h
@@ -51,6 +51,9 @@ namespace libvariant {
 		virtual void EmitTrue() = 0;
 		virtual void EmitFalse() = 0;
 		virtual void Emit(const char *v) = 0;
+		/// Emit a string that may contain null characters. Implementations
+		/// that cannot represent those only need to override the above.
+		virtual void Emit(const std::string &v);
 		virtual void Emit(intmax_t v) = 0;
 		virtual void Emit(uintmax_t v) = 0;
 		virtual void Emit(double v) = 0;
diff --git a/src/Emitter.cc b/src/Emitter.cc
index 691d0b3..41fec85 100644
--- a/src/Emitter.cc
+++ b/src/Emitter.cc
@@ -35,6 +35,10 @@
 namespace libvariant {
 	EmitterImpl::~EmitterImpl() {}
 
+	void EmitterImpl::Emit(const std::string &v) {
+		Emit(v.c_str());
+	}
+
 	void EmitterImpl::SetParams(Variant params) {
 		if (params.IsMap()) {
 			for (Variant::MapIterator i(params.MapBegin()), e(params.MapEnd()); i != e; ++i) {
@@ -97,7 +101,7 @@ namespace libvariant {
 	}
 
 	Emitter &Emitter::Emit(const std::string &v) {
-		impl->Emit(v.c_str());
+		impl->Emit(v);
 		return *this;
 	}
 
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..2c2419c 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -107,6 +107,11 @@ namespace libvariant {
 		EmitString(v, strlen(v));
 	}
 
+	void JSONEmitterImpl::Emit(const std::string &v) {
+		CheckSeparator();
+		EmitString(v.data(), v.length());
+	}
+
 	void JSONEmitterImpl::Emit(intmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
diff --git a/src/JSONEmitter.h b/src/JSONEmitter.h
index f5a2fb1..0bebf3e 100644
--- a/src/JSONEmitter.h
+++ b/src/JSONEmitter.h
@@ -71,6 +71,7 @@ namespace libvariant {
 		virtual void EmitTrue();
 		virtual void EmitFalse();
 		virtual void Emit(const char *v);
+		virtual void Emit(const std::string &v);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
 		virtual void Emit(double v);
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..4948b61 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -306,6 +306,10 @@ namespace libvariant {
 		Emit(v, ANY_SCALAR_STYLE);
 	}
 
+	void YAMLEmitterImpl::Emit(const std::string &v) {
+		Emit(v, ANY_SCALAR_STYLE);
+	}
+
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
 		CheckClosed();
 		CheckInDocument();
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index a01250d..9aa1a79 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -119,6 +119,7 @@ namespace libvariant {
 		virtual void EmitFalse();
 		void Emit(const std::string &v, ScalarStyle style);
 		virtual void Emit(const char *v);
+		virtual void Emit(const std::string &v);
 		void Emit(const char *v, ScalarStyle style);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
-- 
2.43.0


From 5ab16e68b8cb311d7f4e248ba9adbbafce8527ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:00 +0000
Subject: [PATCH 002/114] fix: do not encode a byte for zero length buffers in
 base64

Encoding an empty buffer read one byte past it and produced four characters
instead of none, so an empty blob came back as a blob with one random byte.
---
 src/Base64.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..7aef14d 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,12 +15,13 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { skip_empty(); }
 		iov_iterator &operator++() {
 			++offset;
 			if (offset >= iov[slab].iov_len) {
 				++slab;
 				offset = 0;
+				skip_empty();
 			}
 			return *this;
 		}
@@ -46,6 +47,10 @@ namespace libvariant {
 		}
 
 	private:
+		void skip_empty() {
+			while (slab < len && iov[slab].iov_len == 0) { ++slab; }
+		}
+
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
-- 
2.43.0


From 9946c1c6f603f6d4e60748bb85673197b72cf31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:00 +0000
Subject: [PATCH 003/114] fix: base64 decoder read one entry past its table

The character following 'z' was looked up just behind the decoding table
instead of being skipped.
---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 7aef14d..8ee6422 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -133,7 +133,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From 2ac9d01853cc7adbb3c549ee29db6f8721bbf264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 004/114] fix: emit a digit after the decimal point in JSON
 numbers

Floats with as many integral digits as the precision, such as 1e16, were
written as '10000000000000000.', which is not JSON.
---
 src/JSONEmitter.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 2c2419c..ad319aa 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -19,6 +19,7 @@
 #include <Variant/EmitterOutput.h>
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <stdexcept>
 #include <sstream>
 #include <iomanip>
@@ -137,7 +138,14 @@ namespace libvariant {
 		} else {
 			oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		}
-		EmitRaw(oss.str().c_str(), oss.str().length());
+		std::string text = oss.str();
+		// JSON requires at least one digit after the decimal point
+		size_t point = text.find('.');
+		if (point != std::string::npos &&
+				(point + 1 == text.length() || !isdigit((unsigned char)text[point + 1]))) {
+			text.insert(point + 1, "0");
+		}
+		EmitRaw(text.c_str(), text.length());
 	}
 
 	void JSONEmitterImpl::Emit(ConstBlobPtr b) {
-- 
2.43.0


From f752488ae0d8bfcd9990f507c06503ced43d3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:41 +0000
Subject: [PATCH 005/114] fix: reject garbage before a JSON document

An illegal character before the first bracket was skipped, so text such
as "xyz[1]" was accepted.
---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 9d385a8..1550550 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -155,7 +155,7 @@ namespace libvariant {
 							else { status = S_ERROR; }
 						}
 					}
-				} else if (status == S_OK) { status = S_ERROR; }
+				} else if (status == S_OK || status == S_BEGIN) { status = S_ERROR; }
 				++c;
 			}
 			input->Release(c - ptr);
-- 
2.43.0


From ae1734fb37e6ce237aae193ee3d6c20d720c3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:41 +0000
Subject: [PATCH 006/114] fix: accept JSON numbers made of zero and an exponent

Numbers such as 0e1 and -0E+5 are standard JSON.
---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..9e8441d 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -264,7 +264,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*u3     U3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,U4,U4,U4,U4,U4,U4,U4,U4,__,__,__,__,__,__,U4,U4,__,__},
 /*u4     U4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,UC,UC,UC,UC,UC,UC,UC,UC,__,__,__,__,__,__,UC,UC,__,__},
 /*minus  MI*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,ZE,IT,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*int    IT*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,IT,IT,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From 6509d52d4e136b569264dea0a00735ee0e57b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:41 +0000
Subject: [PATCH 007/114] fix: comments next to JSON literals and exponents

A comment cut a literal short ("tru/**/" was read as true), and a comment
directly after an exponent or a decimal point was rejected.
---
 lib/json/JSON_parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 9e8441d..c8aa561 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -269,21 +269,21 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*ex     E2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
-/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*fa     F1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*fal    F2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F3,__,__,__,__,__,__,__,__,__},
 /*fals   F3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F4,__,__,__,__,__,__},
-/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*nu     N1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N2,__,__,__,__},
 /*nul    N2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N3,__,__,__,__,__,__,__,__,__},
-/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
+/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
 /*/      C1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,C2},
 /*/*     C2*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
 /**      C3*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,CE,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
-/*_.     FX*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
+/*_.     FX*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*\      D1*/ {__,__,__,__,__,__,__,__,__,D2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*\      D2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,U1,__,__,__,__},
 };
-- 
2.43.0


From 996a18dac7e031300859ced5b532e993e1d91660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:19 +0000
Subject: [PATCH 008/114] fix: recognise every spelling of infinity and nan in
 plain scalars

The sign was only allowed before ".inf", and ".NaN" was not recognised,
both part of the YAML core schema.
---
 src/GuessScalar.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..9d75ab9 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -22,8 +22,8 @@ namespace libvariant {
 					"|0o([0-7]+)" // int8 6
 					"|0x([0-9a-fA-F]+)" // int16 7
 					"|([-+]?((\\.[0-9]+)|([0-9]+(\\.[0-9]*)?))([eE][-+]?[0-9]+)?)" // float 8 (9,10,11,12,13)
-					"|([-+]?\\.inf|\\.Inf|\\.INF)" // inf 14
-					"|(\\.nan|\\.Nan|\\.NAN)" // nan 15
+					"|([-+]?\\.(inf|Inf|INF))" // inf 14 (15)
+					"|(\\.nan|\\.Nan|\\.NaN|\\.NAN)" // nan 16
 					")[[:space:]\n]*$";
 		enum {
 			MATCH_NULL = 2,
@@ -34,8 +34,8 @@ namespace libvariant {
 			MATCH_INT16 = 7,
 			MATCH_FLOAT = 8,
 			MATCH_INF = 14,
-			MATCH_NAN = 15,
-			MATCH_MAX = 16
+			MATCH_NAN = 16,
+			MATCH_MAX = 17
 		};
 
 		class GuessRegex {
-- 
2.43.0


From 83fe0456768e8eb8421035255eef11c975030364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:19 +0000
Subject: [PATCH 009/114] fix: quote YAML strings that are empty or look like
 another type

Strings and keys such as "1", "true" or "null" were written plain and
read back as a number, boolean or null.  An empty string was written as
nothing at all, which other parsers read as null and which does not parse
as a document without explicit start.
---
 src/GuessScalar.cc | 12 ++++++++++--
 src/GuessScalar.h  |  3 +++
 src/YAMLEmitter.cc |  7 +++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 9d75ab9..2082d0f 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -67,11 +67,19 @@ namespace libvariant {
 		}
 	}
 
+	static const GuessRegex &GetGuessRegex() {
+		static GuessRegex guessregex;
+		return guessregex;
+	}
+
+	bool GuessIsString(const char *value) {
+		return regexec(&GetGuessRegex().guessregex, value, 0, 0, 0) != 0;
+	}
+
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action) {
-		static GuessRegex guessregex;
 		regmatch_t match[MATCH_MAX];
-		if (regexec(&guessregex.guessregex, value, MATCH_MAX, &match[0], 0) == 0) {
+		if (regexec(&GetGuessRegex().guessregex, value, MATCH_MAX, &match[0], 0) == 0) {
 			if (match[MATCH_NULL].rm_so != -1) {
 				action->Null(p, anchor, tag);
 			} else if (match[MATCH_TRUE].rm_so != -1) {
diff --git a/src/GuessScalar.h b/src/GuessScalar.h
index d610451..b942ef2 100644
--- a/src/GuessScalar.h
+++ b/src/GuessScalar.h
@@ -9,5 +9,8 @@
 namespace libvariant {
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action);
+
+	/// Whether GuessScalar would treat value as a string.
+	bool GuessIsString(const char *value);
 }
 #endif
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 4948b61..e244fcd 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,6 +26,7 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
@@ -303,11 +304,13 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		Emit(std::string(v));
 	}
 
 	void YAMLEmitterImpl::Emit(const std::string &v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		// Quote anything that would be read back as something other than a string
+		bool plain = !v.empty() && GuessIsString(v.c_str());
+		Emit(v, plain ? ANY_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From faeb286678b50a1f167433aa1476b32633d58583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:43 +0000
Subject: [PATCH 010/114] fix: keep the whole text of XML property list
 elements

White space only strings and keys were lost, empty strings, keys and data
were rejected although the emitter writes them, and a comment inside an
element split its text into several values.  Collect the text of an
element and use it when the element ends.
---
 src/XMLPLISTParser.cc | 137 ++++++++++++++----------------------------
 src/XMLPLISTParser.h  |   5 +-
 2 files changed, 48 insertions(+), 94 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..f688199 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,11 +99,13 @@ namespace libvariant {
 						loop = EndElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-						loop = ProcessText(TopAction());
+					case XML_READER_TYPE_CDATA:
+					case XML_READER_TYPE_WHITESPACE:
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
+						loop = ProcessText();
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
-					case XML_READER_TYPE_CDATA:
 					case XML_READER_TYPE_ENTITY_REFERENCE:
 					case XML_READER_TYPE_ENTITY:
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
@@ -112,8 +114,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
-					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
@@ -156,7 +156,7 @@ namespace libvariant {
 		case IntegerNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty interger elements";
@@ -166,7 +166,7 @@ namespace libvariant {
 		case FloatNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty real elements";
@@ -174,24 +174,14 @@ namespace libvariant {
 			}
 			return true;
 		case StringNode:
-			if (!empty_node) {
-				statestack.push_back(nodetype);
-				empty = true;
-			} else {
-				err = true;
-				errorstr = "libvariant XML PLIST does not allow empty string elements";
-				throw std::runtime_error(errorstr);
-			}
+			text.clear();
+			statestack.push_back(nodetype);
+			if (empty_node) { return EndElement(action, nodetype); }
 			return true;
 		case BlobNode:
-			if (!empty_node) {
-				statestack.push_back(nodetype);
-				empty = true;
-			} else {
-				err = true;
-				errorstr = "libvariant XML PLIST does not allow empty data elements";
-				throw std::runtime_error(errorstr);
-			}
+			text.clear();
+			statestack.push_back(nodetype);
+			if (empty_node) { return EndElement(action, nodetype); }
 			return true;
 		case MapNode:
 			if (empty_node) { statestack.push_back(EmptyMapNode); }
@@ -199,15 +189,9 @@ namespace libvariant {
 			action->BeginMap(this, -1, 0, 0);
 			return false;
 		case KeyNode:
-			{
-				if (empty_node) {
-					err = true;
-					errorstr = "libvariant XML PLIST does not allow empty key elements";
-					throw std::runtime_error(errorstr);
-				}
-				statestack.push_back(nodetype);
-				empty = true;
-			}
+			text.clear();
+			statestack.push_back(nodetype);
+			if (empty_node) { return EndElement(action, nodetype); }
 			return true;
 		case ListNode:
 			if (empty_node) { statestack.push_back(EmptyListNode); }
@@ -221,73 +205,34 @@ namespace libvariant {
 		}
 	}
 
-	bool XMLPLISTParserImpl::ProcessText(ParserActions *action) {
+	bool XMLPLISTParserImpl::ProcessText() {
 		switch (statestack.back()) {
-		case NullNode:
-		case RootNode:
-		case TrueNode:
-		case FalseNode:
-		case MapNode:
-		case ListNode:
-			return true;
 		case IntegerNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				intmax_t val;
-				val = strtoll(value, 0, 0);
-				if (val == LLONG_MAX && errno == ERANGE) {
-					uintmax_t v;
-					v = strtoull(value, 0, 0);
-					action->Scalar(this, v, 0, 0);
-				} else {
-					action->Scalar(this, val, 0, 0);
-				}
-			}
-			return true;
 		case FloatNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				double val = strtod(value, 0);
-				action->Scalar(this, val, 0, 0);
-			}
-			return true;
 		case StringNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
 		case BlobNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				unsigned length = strlen(value);
-				void *data = 0;
-				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
-					err = true;
-					errorstr = "memory allocation failure";
-					throw std::bad_alloc();
-				}
-				unsigned len = Base64Decode(data, value, length);
-				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
-			}
-			return true;
 		case KeyNode:
+			// The text of an element may come in several pieces, wait for the end
+			// of the element before using it.
 			{
-				empty = false;
 				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
+				if (value) { text += value; }
 			}
 			return true;
 		default:
-			err = true;
-			errorstr = "Invalid libvariant XML PLIST parser state";
-			throw std::runtime_error(errorstr);
+			return true;
 		}
+	}
 
+	void XMLPLISTParserImpl::FinishBlob(ParserActions *action) {
+		void *data = 0;
+		if (posix_memalign(&data, 64, Base64DecodeSize(text.length())) != 0) {
+			err = true;
+			errorstr = "memory allocation failure";
+			throw std::bad_alloc();
+		}
+		unsigned len = Base64Decode(data, text.c_str(), text.length());
+		action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
 	}
 
 	bool XMLPLISTParserImpl::EndElement(ParserActions *action, State_t nodetype) {
@@ -304,22 +249,30 @@ namespace libvariant {
 			return false;
 		case IntegerNode:
 		case FloatNode:
-			if (empty) {
+			if (text.find_first_not_of(" \t\r\n") == std::string::npos) {
 				err = true;
 				errorstr = "libvariant XML PLIST parser cannot have empty numeric nodes";
 				throw std::runtime_error(errorstr);
 			}
+			if (nodetype == FloatNode) {
+				action->Scalar(this, strtod(text.c_str(), 0), 0, 0);
+			} else {
+				errno = 0;
+				intmax_t val = strtoll(text.c_str(), 0, 0);
+				if (val == LLONG_MAX && errno == ERANGE) {
+					uintmax_t v = strtoull(text.c_str(), 0, 0);
+					action->Scalar(this, v, 0, 0);
+				} else {
+					action->Scalar(this, val, 0, 0);
+				}
+			}
 			return false;
 		case BlobNode:
-			if (empty) {
-				err = true;
-				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
-				throw std::runtime_error(errorstr);
-			}
+			FinishBlob(action);
 			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { action->Scalar(this, "", 0, 0, 0); }
+			action->Scalar(this, text.c_str(), text.length(), 0, 0);
 			return false;
 		case RootNode:
 			action->EndDocument(this);
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..61c024a 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,7 +59,8 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
-		bool ProcessText(ParserActions *action);
+		bool ProcessText();
+		void FinishBlob(ParserActions *action);
 		bool EndElement(ParserActions *action, State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
@@ -72,7 +73,7 @@ namespace libvariant {
 		xmlTextReaderPtr reader;
 		shared_ptr<ParserInput> input;
 		bool closed;
-		bool empty;
+		std::string text;
 		bool err;
 		std::string errorstr;
 	};
-- 
2.43.0


From 306836658372a0b4a364b88b198323743748bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:43 +0000
Subject: [PATCH 011/114] fix: use after free when parsing a container without
 document events

The parent finished first and popped the child from the stack while the
child was still being used.  This happened for every list or map at the
root of an XML property list without a plist element.
---
 src/VariantParsing.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4bb32f0..4eb616e 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -121,13 +121,19 @@ namespace libvariant {
 		}
 
 		void Finish(ParserImpl *p) {
-			if (base) {
-				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
-			} else {
-				state->result = result;
-			}
+			// Popping may delete this, and base may pop itself from SetValue, so
+			// pop first and use only copies afterwards.
+			VariantBaseParserActions *parent = base;
+			ParserState *parser_state = state;
+			Variant value = result;
+			std::string value_anchor = anchor;
 			done = true;
 			p->PopAction();
+			if (parent) {
+				parent->SetValue(p, value, (value_anchor.empty() ? 0 : value_anchor.c_str()));
+			} else {
+				parser_state->result = value;
+			}
 		}
 
 		int Level() {
-- 
2.43.0


From 542bbcfe5f688514e96cc84ae8c950e7e63f71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:12 +0000
Subject: [PATCH 012/114] fix: read the last line of a bundle header without
 line end

The line was silently dropped.
---
 src/BundleHdrParser.cc | 16 ++++++++++------
 src/BundleHdrParser.h  |  1 +
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 6030449..577fb42 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -20,11 +20,14 @@ namespace libvariant {
 		while (true) {
 			line = (const char *)input->GetPtr(len);
 			if (!line || line_len == len) {
-				line = 0;
+				// End of input, what is left is a line without line end
+				if (line_len == 0) { line = 0; }
+				line_terminated = false;
 				return;
 			}
 			for (;line_len < len; ++line_len) {
 				if (line[line_len] == '\n') {
+					line_terminated = true;
 					return;
 				}
 			}
@@ -33,7 +36,7 @@ namespace libvariant {
 	}
 
 	void BundleHdrParserImpl::RetireLine() {
-		input->Release(line_len + 1);
+		input->Release(line_len + (line_terminated ? 1 : 0));
 		line = 0;
 		line_len = 0;
 	}
@@ -47,7 +50,7 @@ namespace libvariant {
 		const char *e = line + line_len;
 		key.clear();
 		value.clear();
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
 		loop = true;
 		while (loop && c != e) {
 			switch (*c) {
@@ -65,12 +68,12 @@ namespace libvariant {
 			}
 		}
 		key.push_back('\0');
-		while (isspace(*c) && c != e) { ++c; }
-		if (*c != ':') {
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
+		if (c == e || *c != ':') {
 			return false;
 		}
 		++c;
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
 		while (c != e && *c != '#') {
 			value.push_back(*c);
 			++c;
@@ -191,6 +194,7 @@ namespace libvariant {
 		state(START),
 		line(0),
 		line_len(0),
+		line_terminated(false),
 		line_num(0)
 	{}
 
diff --git a/src/BundleHdrParser.h b/src/BundleHdrParser.h
index f6bf331..28458d0 100644
--- a/src/BundleHdrParser.h
+++ b/src/BundleHdrParser.h
@@ -54,6 +54,7 @@ namespace libvariant {
 		State_t state;
 		const char *line;
 		unsigned line_len;
+		bool line_terminated;
 		std::vector<char> key;
 		std::vector<char> value;
 		std::deque<char*> list;
-- 
2.43.0


From 57568d49f9176dd3f8479c4ceb8e03f1a8640635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:12 +0000
Subject: [PATCH 013/114] fix: honour the precision parameter of the bundle
 header emitter

The documented parameter was ignored when the emitter was created.
---
 src/BundleHdrEmitter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..80b608c 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -18,6 +18,9 @@ namespace libvariant {
 		state(BHE_START),
 		numeric_precision(std::numeric_limits<double>::digits10+2)
    	{
+		if (params.IsMap()) {
+			params.GetInto(numeric_precision, "precision", numeric_precision);
+		}
 	}
 
 
-- 
2.43.0


From ee9cf922b858eddb430f017d0583b1d33713119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:13 +0000
Subject: [PATCH 014/114] fix: a short read is not the end of the input

A stream input that returned fewer bytes than asked for was taken to be at
its end, so the rest was dropped, and a read error after some data was
read as the end of the file.
---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..5611884 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -68,7 +68,7 @@ namespace libvariant {
 		while (!eof && (num < len || num == 0)) {
 			unsigned to_read = buffer.size() - num - offset;
 			unsigned num_read = Read(&buffer[num + offset], to_read);
-			if (num_read < to_read) { eof = true; }
+			if (num_read == 0) { eof = true; }
 			num += num_read;
 		}
 		len = num;
-- 
2.43.0


From a927481ceee0cb0ffaa5249a92dd28d22f8bf677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:35 +0000
Subject: [PATCH 015/114] fix: clear errno before guessing the type of an
 integer

---
 src/GuessScalar.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 2082d0f..60f92da 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -88,6 +88,7 @@ namespace libvariant {
 				action->Scalar(p, false, anchor, tag);
 			} else if (match[MATCH_INT10].rm_so != -1) {
 				long long val;
+				errno = 0;
 				val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					unsigned long long v;
-- 
2.43.0


From 4dac614fd41455acab7274b895dd358817a1a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:45 +0000
Subject: [PATCH 016/114] fix: do not read past the end of blank input when
 guessing its format

---
 src/GuessFormat.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..766edf2 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,11 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
+					// Nothing but whitespace
+#ifdef ENABLE_YAML
+					return SERIALIZE_YAML;
+#endif
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From 547fa9b150478d6f6ab086a08b0192bafc21959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:16 +0000
Subject: [PATCH 017/114] fix: report XML true, false and null elements once
 they are closed

---
 src/XMLPLISTParser.cc | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index f688199..67a80ec 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -138,21 +138,15 @@ namespace libvariant {
 		bool empty_node = xmlTextReaderIsEmptyElement(reader) != 0;
 		switch (nodetype) {
 		case NullNode:
-			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Null(this, 0, 0);
-			return !empty_node;
+		case TrueNode:
+		case FalseNode:
+			statestack.push_back(nodetype);
+			if (empty_node) { return EndElement(action, nodetype); }
+			return true;
 		case RootNode:
 			statestack.push_back(nodetype);
 			action->BeginDocument(this);
 			return !empty_node;
-		case TrueNode:
-			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Scalar(this, true, 0, 0);
-			return !empty_node;
-		case FalseNode:
-			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Scalar(this, false, 0, 0);
-			return !empty_node;
 		case IntegerNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
@@ -244,8 +238,13 @@ namespace libvariant {
 		statestack.pop_back();
 		switch (nodetype) {
 		case NullNode:
+			action->Null(this, 0, 0);
+			return false;
 		case TrueNode:
+			action->Scalar(this, true, 0, 0);
+			return false;
 		case FalseNode:
+			action->Scalar(this, false, 0, 0);
 			return false;
 		case IntegerNode:
 		case FloatNode:
-- 
2.43.0


From 37c23f41ec4771ea4afd465778ebae6f565ca565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:16 +0000
Subject: [PATCH 018/114] fix: reject elements nested in XML scalar elements

---
 src/XMLPLISTParser.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 67a80ec..3a74629 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -136,6 +136,17 @@ namespace libvariant {
 
 	bool XMLPLISTParserImpl::BeginElement(ParserActions *action, State_t nodetype) {
 		bool empty_node = xmlTextReaderIsEmptyElement(reader) != 0;
+		switch (statestack.back()) {
+		case EndState:
+		case RootNode:
+		case MapNode:
+		case ListNode:
+			break;
+		default:
+			err = true;
+			errorstr = "libvariant XML PLIST does not allow elements inside of scalar elements";
+			throw std::runtime_error(errorstr);
+		}
 		switch (nodetype) {
 		case NullNode:
 		case TrueNode:
-- 
2.43.0


From d4a68aebea31af0fd91d829487751183ebf33b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:56 +0000
Subject: [PATCH 019/114] fix: report failing writes of the JSON and bundle
 header emitters

---
 include/Variant/EmitterOutput.h |  2 ++
 src/BundleHdrEmitter.cc         |  4 +++-
 src/BundleHdrEmitter.h          |  5 +----
 src/EmitterOutput.cc            | 24 +++++++++++++++++++++---
 src/JSONEmitter.cc              | 19 +++++++++----------
 5 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/Variant/EmitterOutput.h b/include/Variant/EmitterOutput.h
index ffc5b1e..95af2b3 100644
--- a/include/Variant/EmitterOutput.h
+++ b/include/Variant/EmitterOutput.h
@@ -36,6 +36,8 @@ namespace libvariant {
 		virtual unsigned Write(const void *ptr, unsigned len) = 0;
 		virtual void Flush() {}
 		virtual unsigned NumBytesWritten() const = 0;
+		/// Write everything, throw an exception if that is not possible.
+		void WriteAll(const void *ptr, unsigned len);
 	};
 
 	class EmitterFileOutput : public EmitterOutput {
diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 80b608c..4c04000 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -25,7 +25,9 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		// Call Close to find out about errors
+		try { Close(); }
+		catch (...) {}
 	}
 
 
diff --git a/src/BundleHdrEmitter.h b/src/BundleHdrEmitter.h
index 04b1a2b..7ad0ae4 100644
--- a/src/BundleHdrEmitter.h
+++ b/src/BundleHdrEmitter.h
@@ -95,10 +95,7 @@ namespace libvariant {
 		}
 
 		void Write(const char *str, unsigned len) {
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(str + num_written, len - num_written);
-			}
+			output->WriteAll(str, len);
 		}
 
 		shared_ptr<EmitterOutput> output;
diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..efa97de 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -24,11 +24,25 @@
 #include <streambuf>
 #include <sstream>
 #include <string.h>
+#include <errno.h>
+#include <string>
 
 namespace libvariant {
 
 	EmitterOutput::~EmitterOutput() {}
 
+	void EmitterOutput::WriteAll(const void *ptr, unsigned len) {
+		const char *c = (const char*)ptr;
+		while (len > 0) {
+			unsigned num = Write(c, len);
+			if (num == 0) {
+				throw std::runtime_error("Emitter output does not accept any more data.");
+			}
+			c += num;
+			len -= num;
+		}
+	}
+
 	EmitterFileOutput::EmitterFileOutput(FILE *f, bool c) : file(f), num_bytes(0), cls(c) {}
 
 	EmitterFileOutput::~EmitterFileOutput() {
@@ -45,7 +59,9 @@ namespace libvariant {
 	}
 
 	void EmitterFileOutput::Flush() {
-	   	fflush(file);
+		if (fflush(file) != 0) {
+			throw std::runtime_error(std::string("Error writing to file: ") + strerror(errno));
+		}
    	}
 
 	EmitterFilenameOutput::EmitterFilenameOutput(const char *filename, const char *mode)
@@ -76,11 +92,13 @@ namespace libvariant {
 	}
 
 	void EmitterStreambufOutput::Flush() {
-	   	streambuf->pubsync();
+		if (streambuf->pubsync() == -1) {
+			throw std::runtime_error("Error writing to streambuf.");
+		}
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-		: data_ptr(ptr), length(len), out_length(out_len)
+		: data_ptr(ptr), length(len), out_length_dummy(0), out_length(out_len)
    	{
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index ad319aa..ad087ca 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -53,7 +53,9 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		// Call Close to find out about errors
+		try { Close(); }
+		catch (...) {}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
@@ -164,11 +166,9 @@ namespace libvariant {
 
 	void JSONEmitterImpl::Flush() {
 		if (buffer_len > 0) {
-			unsigned num_written = 0;
-			while (num_written < buffer_len) {
-				num_written += output->Write(&buffer[num_written], buffer_len - num_written);
-			}
+			unsigned len = buffer_len;
 			buffer_len = 0;
+			output->WriteAll(&buffer[0], len);
 		}
 		output->Flush();
 	}
@@ -242,7 +242,9 @@ namespace libvariant {
 			memset(&buffer[buffer_len], ' ', BUFFER_THRESHOLD);
 			unsigned num_written = 0;
 			while (num_written < indent) {
-				num_written += output->Write(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
+				unsigned num = min(indent - num_written, BUFFER_THRESHOLD);
+				output->WriteAll(&buffer[buffer_len], num);
+				num_written += num;
 			}
 		} else {
 			if (indent + buffer_len > MAX_BUFFER_LEN) {
@@ -294,10 +296,7 @@ namespace libvariant {
 	void JSONEmitterImpl::EmitRaw(const char *text, unsigned len) {
 		if (len > BUFFER_THRESHOLD) {
 			Flush();
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(&text[num_written], len - num_written);
-			}
+			output->WriteAll(text, len);
 		} else {
 			if (len + buffer_len > MAX_BUFFER_LEN) {
 				Flush();
-- 
2.43.0


From 52d97c67a7b77576186618435f3c325911c281ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:47 +0000
Subject: [PATCH 020/114] fix: report failing writes of the YAML emitter
 without losing or double freeing events

---
 src/YAMLEmitter.cc | 39 +++++++++++++++++++++++++--------------
 src/YAMLEmitter.h  |  5 +++++
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index e244fcd..4f833a3 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -30,9 +30,15 @@
 
 namespace libvariant {
 
-	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
-		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
+	int YAMLEmitterImpl::WriteHandler(void *data, unsigned char *buffer, size_t size) {
+		YAMLEmitterImpl *impl = (YAMLEmitterImpl*)data;
+		// Exceptions must not pass through libyaml, HandleError throws it again.
+		try { impl->out->WriteAll((const void*)buffer, size); }
+		catch (...) {
+			impl->write_error = std::current_exception();
+			return 0;
+		}
+		return 1;
 	}
 
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
@@ -176,12 +182,12 @@ namespace libvariant {
 
 
 	YAMLEmitterImpl::YAMLEmitterImpl(shared_ptr<EmitterOutput> o, Variant params)
-		:out(o), closed(false), in_document(false), conf(params)
+		:out(o), closed(false), failed(false), in_document(false), conf(params)
 	{
 		if (yaml_emitter_initialize(&emitter) == 0) {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
-		yaml_emitter_set_output(&emitter, WriteHandler, out.get());
+		yaml_emitter_set_output(&emitter, WriteHandler, this);
 		if (conf.indent > 0) {
 			yaml_emitter_set_indent(&emitter, conf.indent);
 		}
@@ -196,8 +202,10 @@ namespace libvariant {
 	}
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
-		try { Close(); }
-		catch (const std::runtime_error &) {}
+		// Call Close to find out about errors
+		try { if (!failed) { Close(); } }
+		catch (...) {}
+		if (!closed) { yaml_emitter_delete(&emitter); }
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
@@ -363,9 +371,8 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Flush() {
 		CheckClosed();
-		if (yaml_emitter_flush(&emitter) == 0) {
-			throw std::runtime_error(emitter.problem);
-		}
+		if (yaml_emitter_flush(&emitter) == 0) { HandleError(); }
+		out->Flush();
 	}
 
 	void YAMLEmitterImpl::Close() {
@@ -408,10 +415,14 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
-		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
-			throw std::runtime_error(emitter.problem);
-		}
+		// The emitter owns the event, even if it fails.
+		if (yaml_emitter_emit(&emitter, &event) == 0) { HandleError(); }
+	}
+
+	void YAMLEmitterImpl::HandleError() {
+		failed = true;
+		if (write_error) { std::rethrow_exception(write_error); }
+		throw std::runtime_error(emitter.problem ? emitter.problem : "Error emitting YAML");
 	}
 
 }
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index 9aa1a79..e3bd199 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -30,6 +30,7 @@
 #include <memory>
 #include <Variant/Emitter.h>
 #include <yaml.h>
+#include <exception>
 #include <stdexcept>
 
 namespace libvariant {
@@ -138,6 +139,8 @@ namespace libvariant {
 		virtual void SetParams(Variant params);
 
 	private:
+		static int WriteHandler(void *data, unsigned char *buffer, size_t size);
+		void HandleError();
 		void EmitStreamStart();
 		void Emit(yaml_event_t &event);
 
@@ -162,6 +165,8 @@ namespace libvariant {
 		shared_ptr<EmitterOutput> out;
 		yaml_emitter_t emitter;
 		bool closed;
+		bool failed;
+		std::exception_ptr write_error;
 		bool in_document;
 		Config conf;
 	};
-- 
2.43.0


From 25f26571f26ebcc887ffad97820a634bc885b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:14 +0000
Subject: [PATCH 021/114] fix: report failing writes of the XML emitter and
 write everything it produces

---
 src/XMLPLISTEmitter.cc | 13 ++++++++++---
 src/XMLPLISTEmitter.h  |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..ba513de 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,12 +31,19 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		// Exceptions must not pass through libxml2, HandleError throws it again.
+		try { impl->output->WriteAll(buffer, len); }
+		catch (...) {
+			impl->write_error = std::current_exception();
+			return -1;
+		}
+		return len;
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		impl->output->Flush();
+		try { impl->output->Flush(); }
+		catch (...) { return -1; }
 		return 0;
 	}
 
@@ -168,7 +175,7 @@ namespace libvariant {
 
 	void XMLPLISTEmitterImpl::Flush() {
 		CheckClosed();
-		if (xmlTextWriterFlush(writer) < 0) {
+		if (xmlTextWriterFlush(writer) < 0 || write_error) {
 			HandleError("xmlTextWriterFlush");
 		}
 		output->Flush();
diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index 8e27943..c342193 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -24,6 +24,7 @@
 #pragma once
 #include <Variant/Emitter.h>
 #include <libxml/xmlwriter.h>
+#include <exception>
 #include <stdexcept>
 #include <deque>
 
@@ -75,6 +76,7 @@ namespace libvariant {
 		static int DoClose(void *ctx);
 	
 		void HandleError(const char *fnname) {
+			if (write_error) { std::rethrow_exception(write_error); }
 			xmlErrorPtr error = xmlGetLastError();
 			if (error) {
 				throw std::runtime_error(error->message);
@@ -122,6 +124,7 @@ namespace libvariant {
 		void UpdateParams();
 		xmlTextWriterPtr writer;
 		shared_ptr<EmitterOutput> output;
+		std::exception_ptr write_error;
 		bool pretty;
 		unsigned indent;
 		unsigned precision;
-- 
2.43.0


From ee204fc87cfd4510df72f96dbd068705586f7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:14 +0000
Subject: [PATCH 022/114] fix: write the whole padding and payload to outputs
 which take part of it

---
 src/Payload.cc | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..1fb225d 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -174,24 +174,15 @@ namespace libvariant {
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
-		unsigned written = 0;
-		while (written < num) {
-			written += out->Write(&buf[written], buf.size() - written);
-		}
+		out->WriteAll(&buf[0], buf.size());
 
 		if (payload_exists && !ignore_payload) {
 			unsigned num_slabs = blob->GetNumBuffers();
 			for (unsigned slab = 0; slab < num_slabs; ++slab) {
-				unsigned to_write = blob->GetLength(slab);
-				char *ptr = (char*)blob->GetPtr(slab);
-				while (to_write > 0) {
-					unsigned num = out->Write(ptr, to_write);
-					ptr += num;
-					to_write -= num;
-				}
+				out->WriteAll(blob->GetPtr(slab), blob->GetLength(slab));
 			}
-			out->Flush();
 		}
+		out->Flush();
 	}
 
 	class ProxyInput : public ParserInput {
-- 
2.43.0


From e07d76b6e16fe6cdb234f14a922600cb84fa19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:46 +0000
Subject: [PATCH 023/114] fix: end an XML document only once if closing the
 emitter fails

---
 src/XMLPLISTEmitter.cc | 7 ++++++-
 src/XMLPLISTEmitter.h  | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index ba513de..05cc277 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -175,6 +175,10 @@ namespace libvariant {
 
 	void XMLPLISTEmitterImpl::Flush() {
 		CheckClosed();
+		FlushWriter();
+	}
+
+	void XMLPLISTEmitterImpl::FlushWriter() {
 		if (xmlTextWriterFlush(writer) < 0 || write_error) {
 			HandleError("xmlTextWriterFlush");
 		}
@@ -186,8 +190,9 @@ namespace libvariant {
 			if (xmlTextWriterEndDocument(writer) < 0) {
 				HandleError("xmlTextWriterEndDocument");
 			}
-			Flush();
+			// the document is only ended once, even if flushing it fails
 			closed = true;
+			FlushWriter();
 		}
 	}
 
diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index c342193..e30a127 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -121,6 +121,7 @@ namespace libvariant {
 			}
 		}
 
+		void FlushWriter();
 		void UpdateParams();
 		xmlTextWriterPtr writer;
 		shared_ptr<EmitterOutput> output;
-- 
2.43.0


From 4e55e82caedae54e4fbf9de2aafb25ca29aa6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:35 +0000
Subject: [PATCH 024/114] fix: reject list indexes whose size would wrap around
 without changing the value

---
 src/Variant.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..3ac4500 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -27,6 +27,7 @@
 #include <math.h>
 #include <assert.h>
 #include <algorithm>
+#include <limits>
 
 template<typename T>
 class my_modulus {
@@ -247,6 +248,13 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e);
 
+		// A negative index by mistake must not make the new size of the list wrap around.
+		static inline void CheckNewIndex(unsigned i) {
+			if (i == std::numeric_limits<unsigned>::max()) {
+				throw std::out_of_range("Variant::List index out of range.");
+			}
+		}
+
 		//--------------------
 		// VTable 
 		//--------------------
@@ -393,8 +401,10 @@ namespace libvariant {
 				if (b + 1 == e) {
 					return GetRefPathElem(that, *b,  def);
 				} else {
-					Variant null_value;
-					SetPathElem(that, *b, &null_value);
+					// only add the new elements once all of them could be created
+					Variant value;
+					value.vtable->GetPathRef(&value, b + 1, e, def);
+					SetPathElem(that, *b, &value);
 					return that->vtable->GetPathRef(that, b, e, def);
 				}
 			}
@@ -443,9 +453,10 @@ namespace libvariant {
 					SetPathElem(that, *b, other);
 					return;
 				} else {
-					Variant null_value;
-					SetPathElem(that, *b, &null_value);
-					that->vtable->SetPath(that, b, e, other);
+					// only add the new elements once all of them could be created
+					Variant value;
+					value.vtable->SetPath(&value, b + 1, e, other);
+					SetPathElem(that, *b, &value);
 					return;
 				}
 			}
@@ -614,6 +625,7 @@ namespace libvariant {
 
 		VariantRef Null::GetRefIndex(Data *that, unsigned i, Variant *def) const {
 			if (def) {
+				CheckNewIndex(i);
 				ListInit(that, Variant::List());
 				return that->vtable->GetRefIndex(that, i, def);
 			}
@@ -631,6 +643,7 @@ namespace libvariant {
 		}
 
 		void Null::SetIndex(Data *that, unsigned i, const Data *other) const {
+			CheckNewIndex(i);
 			ListInit(that, Variant::List());
 			that->vtable->SetIndex(that, i, other);
 		}
@@ -1171,6 +1184,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
+				CheckNewIndex(i);
 				that->l->list.resize(i + 1);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
@@ -1201,6 +1215,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
+				CheckNewIndex(i);
 				that->l->list.resize(i + 1);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
-- 
2.43.0


From 457596b56f3f873e000a65979351e68789a0044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:35 +0000
Subject: [PATCH 025/114] fix: clearing a string must not change other variants
 with the same string

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 3ac4500..98ffe1f 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1077,7 +1077,7 @@ namespace libvariant {
 
 		bool String::Empty(const Data *that) const { return that->s->empty(); }
 
-		void String::Clear(Data *that) const { return that->s->clear(); }
+		void String::Clear(Data *that) const { StringInit(that, ""); }
 
 		int String::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 5dd5a6208bb6b2d3781a2ac6d96cedda8ba4acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:58 +0000
Subject: [PATCH 026/114] fix: assigning a list element to a new element of the
 same list read freed memory

---
 src/Variant.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 98ffe1f..0d1ed42 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -259,8 +259,12 @@ namespace libvariant {
 		// VTable 
 		//--------------------
 
-		void VTable::Assign(const Data *that, Data *other) const
-		{ that->vtable->Copy(that, VTable::GetData(other->vtable->Resolve(other))); }
+		void VTable::Assign(const Data *that, Data *other) const {
+			// Resolving other may create it and so move that if both are elements of one list.
+			Variant value;
+			that->vtable->Copy(that, VTable::GetData(&value));
+			value.vtable->Copy(VTable::GetData(&value), VTable::GetData(other->vtable->Resolve(other)));
+		}
 
 		void VTable::MakeRef(const Data *that, Data *ref) const {
 			RefInit(ref, that);
-- 
2.43.0


From fdfa62206f3f671e71289a480012ef9dae4b8c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:35 +0000
Subject: [PATCH 027/114] fix: a variant of blob type without blob crashed when
 used

---
 src/Variant.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Variant.cc b/src/Variant.cc
index 0d1ed42..b08365a 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1430,6 +1430,7 @@ namespace libvariant {
 		}
 
 		void BlobInit(Data *that, BlobPtr blob) {
+			if (!blob) { blob = libvariant::Blob::CreateCopy("", 0); }
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = BlobVTable();
 			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
-- 
2.43.0


From 9a3d431e9b077c0f3aaeb634e40f476716d68ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:43 +0000
Subject: [PATCH 028/114] fix: a blob is not equal to a blob it is the
 beginning of

---
 src/Blob.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Blob.cc b/src/Blob.cc
index 3e12d55..2410c15 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -116,6 +116,10 @@ namespace libvariant {
 				++j;
 			}
 		}
+		// one is the beginning of the other
+		unsigned our_len = GetTotalLength(), oth_len = other->GetTotalLength();
+		if (our_len < oth_len) { return -1; }
+		if (our_len > oth_len) { return 1; }
 		return 0;
 	}
 }
-- 
2.43.0


From 45f20173343956eeaa482ae497d776a6653e6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:08 +0000
Subject: [PATCH 029/114] fix: order false before true when comparing booleans

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index b08365a..0583348 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -740,7 +740,7 @@ namespace libvariant {
 		int Bool::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
 				other = VTable::GetData(other->vtable->ResolveConst(other));
-				return (that->b == other->b ? 0 : 1);
+				return (int)that->b - (int)other->b;
 			}
 			return 1;
 		}
-- 
2.43.0


From 46ea74f7ffa4d581e19d8e6b2c81cba59cd564eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:08 +0000
Subject: [PATCH 030/114] fix: NaN compared equal to every number

---
 src/Variant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 0583348..f388a6f 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -772,7 +772,8 @@ namespace libvariant {
 				long double o = other->vtable->AsLongDouble(other);
 				if (us < o) { return -1; }
 				else if (us > o) { return 1; }
-				else { return 0; }
+				else if (us == o) { return 0; }
+				else { return (us != us && o != o) ? 0 : 1; } // NaN only equals NaN
 			}
 			return 1;
 		}
-- 
2.43.0


From bce47dfbe1b6c990e4a0ed1f6184222b77fb0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:52 +0000
Subject: [PATCH 031/114] fix: integer division and remainder by zero ended the
 process

---
 src/Variant.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index f388a6f..8dd7a89 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -29,10 +29,33 @@
 #include <algorithm>
 #include <limits>
 
+// Integer divisions without a result end the process, so report them.
+template<typename T>
+static inline void CheckDivision(const T &lhs, const T &rhs) {
+	if (rhs == 0) { throw std::runtime_error("Variant: division by zero."); }
+	if (std::numeric_limits<T>::is_signed && rhs == T(-1)
+			&& lhs == std::numeric_limits<T>::min())
+	{
+		throw std::overflow_error("Variant: result of division out of range.");
+	}
+}
+
+template<typename T>
+class my_divides {
+public:
+	T operator()(const T &lhs, const T &rhs) { CheckDivision(lhs, rhs); return lhs / rhs; }
+};
+
+template<>
+class my_divides<long double> {
+public:
+	long double operator()(const long double &lhs, const long double &rhs) { return lhs / rhs; }
+};
+
 template<typename T>
 class my_modulus {
 public:
-	T operator()(const T &lhs, const T &rhs) { return lhs % rhs; }
+	T operator()(const T &lhs, const T &rhs) { CheckDivision(lhs, rhs); return lhs % rhs; }
 };
 
 template<>
@@ -819,7 +842,7 @@ namespace libvariant {
 		{ NumericOperation<std::multiplies>(that, other); }
 
 		void Numeric::Div(Data *that, const Data *other) const
-		{ NumericOperation<std::divides>(that, other); }
+		{ NumericOperation<my_divides>(that, other); }
 
 		void Numeric::Rem(Data *that, const Data *other) const
 		{ NumericOperation<my_modulus>(that, other); }
-- 
2.43.0


From 9eacf9a631c0da0f2284d8be0f3c06f2290e5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:06 +0000
Subject: [PATCH 032/114] fix: reject path indexes which do not fit instead of
 using another element

---
 src/Path.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Path.cc b/src/Path.cc
index beceffe..9b61b0b 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -4,6 +4,8 @@
  */
 #include <Variant/Path.h>
 #include <sstream>
+#include <limits>
+#include <stdexcept>
 
 namespace libvariant {
 
@@ -25,6 +27,9 @@ namespace libvariant {
 					if (!(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
 					}
+					if (i > std::numeric_limits<unsigned>::max()) {
+						throw std::runtime_error("Error parsing Variant path: index \"" + frag + "\" is too large.");
+					}
 					parsed_path.push_back(i);
 					frag.clear();
 					index = false;
-- 
2.43.0


From f24fd6ba93f8acfdc172f37944d55f6c35350f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:37 +0000
Subject: [PATCH 033/114] fix: remove parse actions when ParseVariant fails so
 the parser can be used again

---
 src/VariantParsing.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4eb616e..147e244 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -211,11 +211,25 @@ namespace libvariant {
 		p->PushAction(actions);
 	}
 
+	// The parser may be used again, do not leave behind actions that refer to
+	// a ParserState that is gone.
+	static void RemoveActions(Parser &p, const shared_ptr<VariantBaseParserActions> &actions) {
+		if (!actions->done) {
+			while (p.PopAction() != actions) {}
+		}
+	}
+
 	Variant ParseVariant(Parser &p) {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
-		while (p.Run() == 0 && !actions->done);
+		try {
+			while (p.Run() == 0 && !actions->done);
+		} catch (...) {
+			RemoveActions(p, actions);
+			throw;
+		}
+		RemoveActions(p, actions);
 		return state.result;
 	}
 
-- 
2.43.0


From 65584b02e9a003ba2233ae7b948b0ce9a6d1f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:37 +0000
Subject: [PATCH 034/114] fix: report the YAML error again instead of looping
 when a failed parser is run

---
 src/YAMLParser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 73a03d7..bf488be 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -90,6 +90,8 @@ namespace libvariant {
 	int YAMLParserImpl::Run() {
 		bool loop = true;
 		while (loop && !eof && !action_stack.empty()) {
+			// libyaml reports success without any event once it has failed
+			if (parser.error != YAML_NO_ERROR) { throw std::runtime_error(errorstr); }
 			yaml_event_t event;
 			if (yaml_parser_parse(&parser, &event) == 0) {
 				err = true;
-- 
2.43.0


From 2c51113d698ff09e414edac20ec1d3eee341fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:50 +0000
Subject: [PATCH 035/114] fix: do not read past the end of a payload header
 without terminating zero

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 1fb225d..1bdb7b2 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -206,7 +206,7 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len) {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
 
 			}
-- 
2.43.0


From 4e1b8dc7f0a6508e1f5260e55982e450d88f1064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:21 +0000
Subject: [PATCH 036/114] fix: keep null documents at the end of a stream and
 report none for an empty stream

---
 src/VariantParsing.cc | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 147e244..84db26c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -219,7 +219,8 @@ namespace libvariant {
 		}
 	}
 
-	Variant ParseVariant(Parser &p) {
+	// Returns false when the input ended without another document.
+	static bool ParseDocument(Parser &p, Variant &result) {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
@@ -230,7 +231,14 @@ namespace libvariant {
 			throw;
 		}
 		RemoveActions(p, actions);
-		return state.result;
+		result = state.result;
+		return actions->done;
+	}
+
+	Variant ParseVariant(Parser &p) {
+		Variant result;
+		ParseDocument(p, result);
+		return result;
 	}
 
 	Variant Deserialize(const std::string &str, SerializeType type) {
@@ -340,20 +348,16 @@ namespace libvariant {
 	}
 
 	void LoadAllIterator::Next() {
-		if (!value) {
-			if (!impl->parser.Done()) {
-				value = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
-			}
-		} else if (value->next) {
+		if (value && value->next) {
 			value = value->next;
 		} else {
-			if (!impl->parser.Done()) {
-				value->next = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
-				if (impl->parser.Done() && value->next->v.IsNull()) {
-					value->next.reset();
-				}
+			shared_ptr<Value> next;
+			Variant v;
+			if (!impl->parser.Done() && ParseDocument(impl->parser, v)) {
+				next = shared_ptr<Value>(new Value(v));
 			}
-			value = value->next;
+			if (value) { value->next = next; }
+			value = next;
 		}
 	}
 	bool LoadAllIterator::operator==(const LoadAllIterator &that) const {
-- 
2.43.0


From 995315fdf25c6b776925ab5de707a3f71521fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:18 +0000
Subject: [PATCH 037/114] fix: close the header emitter before the payload so
 nothing is written after it

---
 src/Payload.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 1bdb7b2..0de375b 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -168,7 +168,8 @@ namespace libvariant {
 		emitter.BeginDocument();
 		PayloadEmit(v, lpath.begin(), true, dpath.begin(), true, state);
 		emitter.EndDocument();
-		emitter.Flush();
+		// The emitter may still have text to write when it is closed
+		emitter.Close();
 
 		// plus 1 because we want a payload to be aligned when adding 1 null byte
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
-- 
2.43.0


From 37ca92d1c827d279b0d019d2372f90480ef3d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:18 +0000
Subject: [PATCH 038/114] fix: place the payload length behind the end of a
 list instead of looping

---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 0de375b..b236194 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && index <= len_i->AsUnsigned()) {
+				while (index < len_i->AsUnsigned()) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From 942dad831e2fe495ff20b08da8cd5b5b6ff0bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:19 +0000
Subject: [PATCH 039/114] fix: put the payload length inside a null header
 value and refuse a place that cannot hold it

---
 src/Payload.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Payload.cc b/src/Payload.cc
index b236194..25f49ee 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -35,6 +35,13 @@ namespace libvariant {
 			state.e.EmitNull();
 			return;
 		}
+		if (on_len_path && !v.IsList() && !v.IsMap()) {
+			// The length belongs inside of this value
+			Variant tmp = v.Copy();
+			tmp.SetPath(Path(len_i, state.len_end), state.payload_len);
+			state.e << tmp;
+			return;
+		}
 
 		bool output_len = false;
 		unsigned index = 0;
-- 
2.43.0


From 99bf14505b571886fea5f7bee18a996daed6b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:38 +0000
Subject: [PATCH 040/114] fix: escape the keys in FormJSONPointer

---
 src/Extensions.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..a2a473a 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -307,6 +307,20 @@ namespace libvariant {
 		return ret;
 	}
 
+	static std::string JSONPointerEscape(const std::string &fragment) {
+		std::string ret;
+		for (std::string::const_iterator c(fragment.begin()), e(fragment.end()); c != e; ++c) {
+			if (*c == '~') {
+				ret += "~0";
+			} else if (*c == '/') {
+				ret += "~1";
+			} else {
+				ret += *c;
+			}
+		}
+		return ret;
+	}
+
 	enum Operations_e {
 		OP_ADD,
 		OP_REMOVE,
@@ -577,7 +591,7 @@ namespace libvariant {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				ret << "/" << JSONPointerEscape(i->AsString());
 			}
 		}
 		return ret.str();
-- 
2.43.0


From efefd5330c8529ffcdd30fef10cd01ef273e6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:04 +0000
Subject: [PATCH 041/114] fix: accept only RFC 6901 array indexes in JSON
 Pointers

---
 src/Extensions.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index a2a473a..b4a8beb 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -25,6 +25,7 @@
 #include <Variant/Extensions.h>
 #include <Variant/Path.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <ctype.h>
 #include <set>
 
@@ -344,12 +345,12 @@ namespace libvariant {
 	};
 
 	static bool IsIndex(const std::string &str, uintmax_t &index) {
-		const char *b = str.c_str();
-		char *e = 0;
-		unsigned long long v = strtoull(b, &e, 10);
-		if (e == b) { return false; }
-		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
-		if (e == 0 || *e != '\0') { return false; }
+		// RFC6901: either a single '0' or digits without a leading '0'
+		if (str.empty() || str.find_first_not_of("0123456789") != std::string::npos) { return false; }
+		if (str.size() > 1 && str[0] == '0') { return false; }
+		errno = 0;
+		unsigned long long v = strtoull(str.c_str(), 0, 10);
+		if (errno == ERANGE) { return false; }
 		index = v;
 		return true;
 	}
-- 
2.43.0


From b7c8401b3a9516eae26d6b923cfb097d422e08a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:09 +0000
Subject: [PATCH 042/114] fix: keep a ~ at the end of a JSON Pointer component

---
 src/Extensions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index b4a8beb..6e893df 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -297,6 +297,8 @@ namespace libvariant {
 						ret.append(c, 1);
 					}
 					++c;
+				} else {
+					ret.append("~");
 				}
 				break;
 			default:
-- 
2.43.0


From 8a098de8d7cf9ec475e53a12346813f916646c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:09 +0000
Subject: [PATCH 043/114] fix: refuse to add behind the end of an array with a
 JSON Pointer

---
 src/Extensions.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 6e893df..2d67754 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -452,9 +452,8 @@ namespace libvariant {
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
+					if (index > v.Size()) {
+						throw std::runtime_error("Attempting to reference past the end of an array");
 					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
 					op.success = true;
-- 
2.43.0


From 644571a88763be7f9e408cd605368bb97b75fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:09 +0000
Subject: [PATCH 044/114] fix: remove array elements and refuse to remove
 missing ones with a JSON Pointer

---
 src/Extensions.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 2d67754..66142c6 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -413,6 +413,9 @@ namespace libvariant {
 					op.success = true;
 					return v.At(component);
 				case OP_REMOVE:
+					if (!v.Contains(component)) {
+						throw std::runtime_error("The target does not exist");
+					}
 					op.value = v.At(component);
 					v.Erase(component);
 					op.success = true;
@@ -459,8 +462,11 @@ namespace libvariant {
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(index);
+					if (index >= v.Size()) {
+						throw std::runtime_error("The target does not exist");
+					}
+					op.value = v.At(index);
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
-- 
2.43.0


From 731b4c59776cdf6ef14dedd64240e7b8389993cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:49 +0000
Subject: [PATCH 045/114] fix: put the value back where it was when
 JSONPointerMove fails

---
 src/Extensions.cc | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 66142c6..b97a647 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -537,6 +537,22 @@ namespace libvariant {
 		}
 	}
 
+	// Put a removed value back to where it was
+	static void PutBack(VariantRef v, Path path, const Variant &value) {
+		if (path.size() > 0) {
+			PathElement elem = path.back();
+			path.pop_back();
+			VariantRef r = path.empty() ? v : v.AtPath(path);
+			if (r.IsList()) {
+				r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), value);
+			} else {
+				r.Set(elem.AsString(), value);
+			}
+		} else {
+			v = value;
+		}
+	}
+
 	void JSONPointerMove(const std::string &src, const std::string &dst, VariantRef v) {
 		Operation_t op(OP_REMOVE, src);
 		try {
@@ -547,9 +563,9 @@ namespace libvariant {
 				op = Operation_t(OP_ADD, dst);
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
+			} catch (const std::exception &) {
+				PutBack(v, path, data);
+				throw;
 			}
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
@@ -618,21 +634,7 @@ namespace libvariant {
 			const Patch_t &p = undo->back();
 			switch (p.op) {
 			case OP_ADD:
-				{
-					Path path = p.path;
-					if (path.size() > 0) {
-						PathElement elem = path.back();
-						path.pop_back();
-						VariantRef r = v.AtPath(path);
-						if (r.IsList()) {
-							r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), p.value);
-						} else {
-							r.Set(elem.AsString(), p.value);
-						}
-					} else {
-						v = p.value;
-					}
-				}
+				PutBack(v, p.path, p.value);
 				break;
 			case OP_REMOVE:
 				v.ErasePath(p.path);
-- 
2.43.0


From 1a97ab7b6ceb814c2b9cf7daea66cc6d452b96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:25 +0000
Subject: [PATCH 046/114] fix: do not wrap JSON Pointer indexes that are too
 large for a list

---
 src/Extensions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index b97a647..e5e69ab 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -27,6 +27,7 @@
 #include <stdlib.h>
 #include <errno.h>
 #include <ctype.h>
+#include <limits>
 #include <set>
 
 using namespace std;
@@ -352,7 +353,7 @@ namespace libvariant {
 		if (str.size() > 1 && str[0] == '0') { return false; }
 		errno = 0;
 		unsigned long long v = strtoull(str.c_str(), 0, 10);
-		if (errno == ERANGE) { return false; }
+		if (errno == ERANGE || v > std::numeric_limits<unsigned>::max()) { return false; }
 		index = v;
 		return true;
 	}
-- 
2.43.0


From d6071c5980ce59dbdb5beb8fb130506ba2f91bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:15 +0000
Subject: [PATCH 047/114] fix: copy the values a JSON Patch puts into the
 document

---
 src/Extensions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index e5e69ab..d3f819f 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -655,7 +655,7 @@ namespace libvariant {
 		try {
 			if (oper == "add") {
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
 					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
@@ -672,7 +672,7 @@ namespace libvariant {
 				op = Operation_t(OP_GET, diff.Get("path").AsString());
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
-					r = diff.Get("value");
+					r = diff.Get("value").Copy();
 				} else {
 					return false;
 				}
@@ -695,7 +695,7 @@ namespace libvariant {
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
+				Variant data = op.value.Copy();
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-- 
2.43.0


From d0f3d9d6d99e89a466bdca91a7bcdc41cd18330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:32 +0000
Subject: [PATCH 048/114] fix: remove added list elements when a JSON Patch is
 undone

---
 src/Extensions.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index d3f819f..11a6a13 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -554,6 +554,18 @@ namespace libvariant {
 		}
 	}
 
+	// Remove a value again, a list closes the gap
+	static void TakeOut(VariantRef v, Path path) {
+		PathElement elem = path.back();
+		path.pop_back();
+		VariantRef r = path.empty() ? v : v.AtPath(path);
+		if (r.IsList()) {
+			r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
+		} else {
+			r.Erase(elem.AsString());
+		}
+	}
+
 	void JSONPointerMove(const std::string &src, const std::string &dst, VariantRef v) {
 		Operation_t op(OP_REMOVE, src);
 		try {
@@ -638,7 +650,7 @@ namespace libvariant {
 				PutBack(v, p.path, p.value);
 				break;
 			case OP_REMOVE:
-				v.ErasePath(p.path);
+				TakeOut(v, p.path);
 				break;
 			case OP_TEST:
 			case OP_GET:
-- 
2.43.0


From 501b1aedd1fd7b8adcc9329d851fe967eeccd2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:48 +0000
Subject: [PATCH 049/114] fix: overwrite a replaced list element when a JSON
 Patch is undone

---
 src/Extensions.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 11a6a13..aab6edf 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -689,6 +689,9 @@ namespace libvariant {
 					return false;
 				}
 				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				if (!op.path.empty()) {
+					undo->push_back(Patch_t(OP_REMOVE, op.path));
+				}
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-- 
2.43.0


From 55775a1a88d316f1f1cceedcfd9f7fd72f590729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:44 +0000
Subject: [PATCH 050/114] fix: copy the values that JSONDiff puts into the
 patch

---
 src/Extensions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index aab6edf..6c9a9f3 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -773,7 +773,7 @@ namespace libvariant {
 					Variant()
 					.Set("op", "add")
 					.Set("path", FormJSONPointer(path))
-					.Set("value", dst)
+					.Set("value", dst.Copy())
 					);
 			return;
 		}
@@ -782,7 +782,7 @@ namespace libvariant {
 					Variant()
 					.Set("op", "replace")
 					.Set("path", FormJSONPointer(path))
-					.Set("value", dst)
+					.Set("value", dst.Copy())
 					);
 			return;
 		}
@@ -820,7 +820,7 @@ namespace libvariant {
 						Variant()
 						.Set("op", "replace")
 						.Set("path", FormJSONPointer(path))
-						.Set("value", dst)
+						.Set("value", dst.Copy())
 						);
 				break;
 			}
-- 
2.43.0


From ac7b6c0611a33f175bc761d4e2bb7c31efe715d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:57 +0000
Subject: [PATCH 051/114] fix: remove surplus list elements from the back in
 JSONDiff

---
 src/Extensions.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 6c9a9f3..3c91b19 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -790,12 +790,17 @@ namespace libvariant {
 			switch (src.GetType()) {
 			case Variant::ListType:
 				{
-					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
-					for (uintmax_t i = 0; i < len; ++i) {
+					for (uintmax_t i = 0; i < dst.Size(); ++i) {
 						path.push_back(PathElement(i));
 							JSONDiffRef(src.At(i), dst.At(i), diff, path);
 						path.pop_back();
 					}
+					// from the back, as each removal moves the elements behind it
+					for (uintmax_t i = src.Size(); i > dst.Size(); --i) {
+						path.push_back(PathElement(i - 1));
+							JSONDiffRef(src.At(i - 1), dst.At(i - 1), diff, path);
+						path.pop_back();
+					}
 				}
 				break;
 			case Variant::MapType:
-- 
2.43.0


From b5b33b0787a6a534237c452095734f8e1e321876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:57 +0000
Subject: [PATCH 052/114] fix: do not turn a null into an empty map in RUpdate

---
 src/Extensions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 3c91b19..f7d58ac 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -270,7 +270,7 @@ namespace libvariant {
 		case Variant::MapType:
 			if ( !base.Exists() || base.IsMap() ) {
 				for ( Variant::ConstMapIterator i(update.MapBegin()), e(update.MapEnd()); i != e; ++i ) {
-					RUpdate(base.At( i->first, Variant::MapType ), update[ i->first ]);
+					RUpdate(base.At( i->first, i->second.IsMap() ? Variant::MapType : Variant::NullType ), update[ i->first ]);
 				}
 				break;
 			}
-- 
2.43.0


From 1c4c1011b7b73fd6161f7d75b4c9d75971eaed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:09 +0000
Subject: [PATCH 053/114] fix: count characters, not bytes, for minLength and
 maxLength

---
 src/Schema.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..61394b4 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -603,14 +603,24 @@ namespace libvariant {
 		regfree(&pattern);
 	}
 
+	// The number of characters in an UTF-8 string
+	static uintmax_t StringLength(const std::string &str) {
+		uintmax_t length = 0;
+		for (std::string::const_iterator i(str.begin()), e(str.end()); i != e; ++i) {
+			// Continuation bytes do not start a character
+			if ((*i & 0xC0) != 0x80) { ++length; }
+		}
+		return length;
+	}
+
 	void ValidateStringLength(SchemaContext &ctx, Variant schema, Variant data) {
+		uintmax_t length = StringLength(data.AsString());
 		if (schema.Contains("minLength")) {
 			AutoSchemaPath spath(ctx, "minLength");
 			if (schema["minLength"].IsNumber()) {
-				// TODO: Get encoded length rather than byte length?
-				if (data.Size() < schema["minLength"].AsUnsigned()) {
+				if (length < schema["minLength"].AsUnsigned()) {
 					std::ostringstream oss;
-					oss << "String is too short (" << data.Size() << " chars), minimum "
+					oss << "String is too short (" << length << " chars), minimum "
 						<< schema["minLength"].AsUnsigned();
 					ctx.AddError(oss.str());
 				}
@@ -621,10 +631,9 @@ namespace libvariant {
 		if (schema.Contains("maxLength")) {
 			AutoSchemaPath spath(ctx, "maxLength");
 			if (schema["maxLength"].IsNumber()) {
-				// TODO: Get encoded length rather than byte length?
-				if (data.Size() > schema["maxLength"].AsUnsigned()) {
+				if (length > schema["maxLength"].AsUnsigned()) {
 					std::ostringstream oss;
-					oss << "String is too long (" << data.Size() << " chars), maximum "
+					oss << "String is too long (" << length << " chars), maximum "
 						<< schema["maxLength"].AsUnsigned();
 					ctx.AddError(oss.str());
 				}
-- 
2.43.0


From e9c261ca21a4071e5a0949e4f46a4bfe5585ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:23 +0000
Subject: [PATCH 054/114] fix: check multipleOf for negative numbers with
 fractions

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 61394b4..fc5c89b 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -719,7 +719,7 @@ namespace libvariant {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
 			// So, we need to check if it is within epsilon of 0
-			long double m = mod.AsLongDouble();
+			long double m = std::abs(mod.AsLongDouble());
 			long double divisor = multipleof.AsLongDouble();
 			long double tolerance = FLOAT_TOLERANCE;
 
-- 
2.43.0


From 5c5abeed09b76f54e87c80a1d8c1b81e6f39909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:24 +0000
Subject: [PATCH 055/114] fix: check multipleOf for negative integers and an
 unsigned divisor

---
 src/Schema.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index fc5c89b..3974c70 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -714,8 +714,8 @@ namespace libvariant {
 			ctx.AddSchemaError(oss.str());
 			return;
 		}
-		Variant mod = data % multipleof;
 		if (data.IsFloat() || multipleof.IsFloat()) {
+			Variant mod = data % multipleof;
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
 			// So, we need to check if it is within epsilon of 0
@@ -730,7 +730,7 @@ namespace libvariant {
 				//	<< "\ntolerance " << tolerance;
 				ctx.AddError(oss.str());
 			}
-		} else if (mod != 0) {
+		} else if ((data < 0 ? -(uintmax_t)data.AsInt() : data.AsUnsigned()) % multipleof.AsUnsigned() != 0) {
 			std::ostringstream oss;
 			oss << "Value " << data.AsString() << " is not a multiple of " << multipleof.AsString();
 			ctx.AddError(oss.str());
-- 
2.43.0


From 57fd3e0c624a1460d76dcc0e78b9320f5a17d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:35 +0000
Subject: [PATCH 056/114] fix: report a multipleOf of zero as an error in the
 schema

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 3974c70..4429ffb 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -708,7 +708,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || multipleof <= 0) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
-- 
2.43.0


From 91232f8ad3ed56a9da2fafcb35bc1c934f351a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:50 +0000
Subject: [PATCH 057/114] fix: accept fractions of a second and offsets in
 date-time strings

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 4429ffb..d287d80 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -522,7 +522,7 @@ namespace libvariant {
 				// From V4 spec
 				// RFC 3339, section 5.6
 				patternstr = "^[0-9][0-9][0-9][0-9](-[0-1][0-9](-[0-3][0-9]"
-					"(T[0-9][0-9](:[0-9][0-9](:[0-9][0-9])?)?)?)?)?Z?$";
+					"(T[0-9][0-9](:[0-9][0-9](:[0-9][0-9](\\.[0-9]+)?)?)?)?)?)?(Z|[-+][0-9][0-9]:[0-9][0-9])?$";
 			} else if (format == "date") {
 				// From V3 spec: should be format of YYYY-MM-DD
 				patternstr = "^[0-9][0-9][0-9][0-9]-[0-1][0-9]-[0-3][0-9]$";
-- 
2.43.0


From 4545372ef8836edc29a71165b11bef76051dcb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:46 +0000
Subject: [PATCH 058/114] fix: match schema patterns against the whole string

---
 src/Schema.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index d287d80..075b787 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -245,6 +245,18 @@ namespace libvariant {
 		}
 	}
 
+	// Search the whole string for the pattern, including anything behind a null character
+	static bool RegexMatches(const regex_t &pattern, const std::string &str) {
+#ifdef REG_STARTEND
+		regmatch_t match;
+		match.rm_so = 0;
+		match.rm_eo = str.size();
+		return regexec(&pattern, str.c_str(), 1, &match, REG_STARTEND) == 0;
+#else
+		return regexec(&pattern, str.c_str(), 0, 0, 0) == 0;
+#endif
+	}
+
 	// Helper class for ValidateObjectProperties
 	class PatternProperty {
 	public:
@@ -266,7 +278,7 @@ namespace libvariant {
 			regfree(&pattern);
 		}
 		bool Test(const std::string &k) {
-			return regexec(&pattern, k.c_str(), 0, 0, 0) == 0;
+			return RegexMatches(pattern, k);
 		}
 		Variant GetSchema() { return schema; }
 		std::string GetKey() { return key; }
@@ -557,7 +569,7 @@ namespace libvariant {
 					return;
 				}
 				try {
-					if (regexec(&pattern, data.AsString().c_str(), 0, 0, 0)) {
+					if (!RegexMatches(pattern, data.AsString())) {
 						ctx.AddError("String does not match format " + format);
 					}
 				} catch (...) {
@@ -590,7 +602,7 @@ namespace libvariant {
 			return;
 		}
 		try {
-			if (regexec(&pattern, data.AsString().c_str(), 0, 0, 0)) {
+			if (!RegexMatches(pattern, data.AsString())) {
 				std::ostringstream oss;
 				oss << "String does not match pattern \""
 					<< patternstr << "\"";
-- 
2.43.0


From 24f3d750e15db51c64bd3c1d45b9d14d32de57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:54 +0000
Subject: [PATCH 059/114] fix: do not change the caller's schema when
 validating or registering it

---
 src/Schema.cc       | 4 ++--
 src/SchemaLoader.cc | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 075b787..1e02df9 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -853,7 +853,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
-		lloader.AddSchema("", schema);
+		schema = lloader.AddSchema("", schema)[""];
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
@@ -910,7 +910,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
-		lloader.AddSchema("", schema);
+		schema = lloader.AddSchema("", schema)[""];
 		AddSchemaDefaultsImpl(schema, data, &lloader);
 	}
 
diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..72ca08c 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -151,6 +151,8 @@ namespace libvariant {
 	std::map<std::string, Variant> SchemaLoader::AddSchema(const std::string &uri, Variant schema) {
 		std::string luri = ResolveURI(uri, "");
 		std::map<std::string, Variant> m;
+		// Normalise a copy, the schema belongs to the caller
+		schema = schema.Copy();
 		m[luri] = schema;
 		NormSchema(schema, luri);
 		SearchForTrustedSchemas(m, schema, luri);
-- 
2.43.0


From bc3bd5f750e75f0f0199be964217dc351006dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:32 +0000
Subject: [PATCH 060/114] fix: allow for the rounding of decimal fractions in
 multipleOf

---
 src/Schema.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 1e02df9..6f80083 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -30,11 +30,12 @@
 #include <regex.h>
 #include <string.h>
 #include <strings.h>
+#include <algorithm>
 #include <limits>
 #include <cmath>
 #include <stdlib.h>
 
-#define FLOAT_TOLERANCE 100*std::numeric_limits<long double>::epsilon()
+#define FLOAT_TOLERANCE 2*std::numeric_limits<double>::epsilon()
 #define RECURSION_LIMIT 100
 
 namespace libvariant {
@@ -730,10 +731,10 @@ namespace libvariant {
 			Variant mod = data % multipleof;
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
-			// So, we need to check if it is within epsilon of 0
+			// So, we need to check if it is within the rounding error of the operands from 0
 			long double m = std::abs(mod.AsLongDouble());
 			long double divisor = multipleof.AsLongDouble();
-			long double tolerance = FLOAT_TOLERANCE;
+			long double tolerance = FLOAT_TOLERANCE * std::max(std::abs(data.AsLongDouble()), divisor);
 
 			if (m > tolerance && std::abs(m - divisor) > tolerance) {
 				std::ostringstream oss;
-- 
2.43.0


From f199701fd4e66589c41921344530197c86cbf601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:51 +0000
Subject: [PATCH 061/114] fix: end the validation at the recursion limit

---
 src/Schema.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 6f80083..9be527c 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -44,6 +44,12 @@ namespace libvariant {
 		virtual const char *what() const throw() { return "stop validation"; }
 	};
 
+	// Ends the whole validation, the combinations must not go on trying alternatives
+	struct RecursionLimit {
+		RecursionLimit(const SchemaError &e) : error(e) {}
+		SchemaError error;
+	};
+
 	struct SchemaContext {
 		SchemaContext(const SchemaContext &o)
 		   	: data_path(o.data_path),
@@ -77,8 +83,7 @@ namespace libvariant {
 			if (depth > RECURSION_LIMIT) {
 				std::ostringstream oss;
 				oss << "SchemaValidate reached recursion limit.";
-				AddSchemaError(oss.str());
-				throw StopValidation();
+				throw RecursionLimit(SchemaError(oss.str(), schema_path));
 			}
 		}
 
@@ -858,7 +863,10 @@ namespace libvariant {
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
-		} catch (const StopValidation &) {}
+		} catch (const StopValidation &) {
+		} catch (const RecursionLimit &limit) {
+			ctx.AddSchemaError(limit.error);
+		}
 		return ctx.result;
 	}
 
-- 
2.43.0


From 73f6cc9ebef9f1034a194ed8f96ee25dc2b82a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:11 +0000
Subject: [PATCH 062/114] fix: complete a default that was just filled in

---
 src/Schema.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 9be527c..1097965 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -887,7 +887,6 @@ namespace libvariant {
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
-			return;
 		}
 		if (schema.Contains("properties") && (!data.Exists() || data.IsMap())) {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
-- 
2.43.0


From 094bc6149bf0909ff67fe7826f1427a5fb17c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:24 +0000
Subject: [PATCH 063/114] fix: end the filling in of defaults for schemas that
 refer to themselves

---
 src/Schema.cc | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 1097965..b7b0be7 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -870,20 +870,41 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	// A reference followed on the way from the root of the data to the current place
+	struct FollowedRef {
+		FollowedRef(const std::string &u, unsigned d, const FollowedRef *p) : uri(u), depth(d), parent(p) {}
+
+		// Following the same reference again never ends, either if it is for the
+		// same data or if it would go on creating data.
+		bool Endless(VariantRef data) const {
+			for (const FollowedRef *i = parent; i != 0; i = i->parent) {
+				if (i->uri == uri && (i->depth == depth || !data.Exists())) { return true; }
+			}
+			return false;
+		}
+
+		std::string uri;
+		unsigned depth; // depth in the data
+		const FollowedRef *parent;
+	};
+
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, const FollowedRef *refs, unsigned depth);
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader, const FollowedRef *refs, unsigned depth) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, loader, refs, depth);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, const FollowedRef *refs, unsigned depth) {
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+			FollowedRef ref(schema["$ref"].AsString(), depth, refs);
+			if (!ref.Endless(data)) {
+				AddSchemaDefaultsImpl(loader->GetSchema(ref.uri), data, loader, &ref, depth);
+			}
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -892,22 +913,22 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader, refs, depth + 1);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader, refs, depth + 1);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaDefaultsImpl(schema["items"], data[0], loader, refs, depth + 1);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, refs, depth);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, refs, depth);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, refs, depth);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -919,7 +940,7 @@ namespace libvariant {
 			schema = lloader.GetSchema(schema.AsString());
 		}
 		schema = lloader.AddSchema("", schema)[""];
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		AddSchemaDefaultsImpl(schema, data, &lloader, 0, 0);
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From cbca04cca769e36260bd242ec4fb3bb364fdc07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:24 +0000
Subject: [PATCH 064/114] fix: do not take default values and property names
 for parts of a schema

---
 src/SchemaLoader.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 72ca08c..0175a59 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -359,6 +359,17 @@ namespace libvariant {
 		return ret;
 	}
 
+	// The value of these keywords is data, not a schema
+	static bool HoldsData(const std::string &keyword) {
+		return keyword == "enum" || keyword == "default";
+	}
+
+	// The value of these keywords maps names, that are no keywords, to schemas
+	static bool HoldsNamedSchemas(const std::string &keyword) {
+		return keyword == "properties" || keyword == "patternProperties"
+			|| keyword == "definitions" || keyword == "dependencies";
+	}
+
 	void SchemaLoader::NormSchema(Variant &schema, const std::string &uri) {
 		std::string baseuri = uri;
 		if (schema.IsMap()) {
@@ -370,7 +381,11 @@ namespace libvariant {
 				schema["$ref"] = ResolveURI(baseuri, schema["$ref"].AsString());
 			} else {
 				for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-					if (i->first != "enum") {
+					if (HoldsNamedSchemas(i->first) && i->second.IsMap()) {
+						for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+							NormSchema(j->second, baseuri);
+						}
+					} else if (!HoldsData(i->first)) {
 						NormSchema(i->second, baseuri);
 					}
 				}
@@ -402,7 +417,11 @@ namespace libvariant {
 			}
 
 			for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-				if (i->first != "enum" && i->second.IsMap()) {
+				if (HoldsNamedSchemas(i->first) && i->second.IsMap()) {
+					for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+						SearchForTrustedSchemas(m, j->second, uri);
+					}
+				} else if (!HoldsData(i->first) && i->second.IsMap()) {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
-- 
2.43.0


From a9f14408154ee6d2bfd087b7e9d75941754eb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:14 +0000
Subject: [PATCH 065/114] fix: stop filling in defaults of a recursive schema
 in data that was missing

---
 src/Schema.cc | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index b7b0be7..71a2089 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -875,10 +875,11 @@ namespace libvariant {
 		FollowedRef(const std::string &u, unsigned d, const FollowedRef *p) : uri(u), depth(d), parent(p) {}
 
 		// Following the same reference again never ends, either if it is for the
-		// same data or if it would go on creating data.
-		bool Endless(VariantRef data) const {
+		// same data or if it is for data that was missing and would go on creating
+		// data.
+		bool Endless(bool missing) const {
 			for (const FollowedRef *i = parent; i != 0; i = i->parent) {
-				if (i->uri == uri && (i->depth == depth || !data.Exists())) { return true; }
+				if (i->uri == uri && (i->depth == depth || missing)) { return true; }
 			}
 			return false;
 		}
@@ -888,22 +889,23 @@ namespace libvariant {
 		const FollowedRef *parent;
 	};
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, const FollowedRef *refs, unsigned depth);
+	// given is what data was before any defaults were filled in, null if it was missing
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, Variant given, SchemaLoader *loader, const FollowedRef *refs, unsigned depth);
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader, const FollowedRef *refs, unsigned depth) {
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, Variant given, SchemaLoader *loader, const FollowedRef *refs, unsigned depth) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader, refs, depth);
+				AddSchemaDefaultsImpl(*i, data, given, loader, refs, depth);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, const FollowedRef *refs, unsigned depth) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, Variant given, SchemaLoader *loader, const FollowedRef *refs, unsigned depth) {
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
 			FollowedRef ref(schema["$ref"].AsString(), depth, refs);
-			if (!ref.Endless(data)) {
-				AddSchemaDefaultsImpl(loader->GetSchema(ref.uri), data, loader, &ref, depth);
+			if (!ref.Endless(given.IsNull())) {
+				AddSchemaDefaultsImpl(loader->GetSchema(ref.uri), data, given, loader, &ref, depth);
 			}
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
@@ -913,22 +915,25 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader, refs, depth + 1);
+				Variant g = given.IsMap() && given.Contains(i->first) ? Variant(given[i->first]) : Variant();
+				AddSchemaDefaultsImpl(i->second, data.At(i->first), g, loader, refs, depth + 1);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader, refs, depth + 1);
+					Variant g = given.IsList() && i < given.Size() ? Variant(given[i]) : Variant();
+					AddSchemaDefaultsImpl(schema["items"][i], data[i], g, loader, refs, depth + 1);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader, refs, depth + 1);
+				Variant g = given.IsList() && !given.Empty() ? Variant(given[0]) : Variant();
+				AddSchemaDefaultsImpl(schema["items"], data[0], g, loader, refs, depth + 1);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, refs, depth);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, refs, depth);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, refs, depth);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, given, loader, refs, depth);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, given, loader, refs, depth);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, given, loader, refs, depth);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -940,7 +945,8 @@ namespace libvariant {
 			schema = lloader.GetSchema(schema.AsString());
 		}
 		schema = lloader.AddSchema("", schema)[""];
-		AddSchemaDefaultsImpl(schema, data, &lloader, 0, 0);
+		Variant given = data.Exists() ? data.Copy() : Variant();
+		AddSchemaDefaultsImpl(schema, data, given, &lloader, 0, 0);
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From ae940b2971b17d385f86ea27174aa12928114413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:52 +0000
Subject: [PATCH 066/114] fix: keep the path of a URI with an @ out of the
 authority

---
 src/SchemaLoader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 0175a59..af0a0ae 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -194,7 +194,7 @@ namespace libvariant {
 			memset(&regex, 0, sizeof(regex_t));
 			int ret = regcomp(&regex,
 "^[[:space:]]*([^:\\/?#]+:)?" // PROTOCOL
-"(//([^:@]*(:[^:@]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
+"(//([^:@/?#]*(:[^:@/?#]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
 "([^?#]*)" // PATHNAME
 "(\\?[^#]*)?" // SEARCH
 "(#[^[:space:]]*)?[[:space:]]*$" // HASH
-- 
2.43.0


From 78e5b8e62634c0c358ebd89ca60111ed36243219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:52 +0000
Subject: [PATCH 067/114] fix: find the root schema by its own id

---
 src/SchemaLoader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index af0a0ae..1ee58bb 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -156,6 +156,12 @@ namespace libvariant {
 		m[luri] = schema;
 		NormSchema(schema, luri);
 		SearchForTrustedSchemas(m, schema, luri);
+		if (luri.empty() && schema.IsMap() && schema.Contains("id") && schema["id"].IsString()) {
+			// Not added for any uri, so the uri is the one the schema has itself
+			luri = ResolveURI(schema["id"].AsString(), "");
+			m[luri] = schema;
+			SearchForTrustedSchemas(m, schema, luri);
+		}
 		schemas.insert(m.begin(), m.end());
 		return m;
 	}
-- 
2.43.0


From e31b6e24f886c19739ff141170bef31168fa7f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:52 +0000
Subject: [PATCH 068/114] fix: find schemas with an id inside lists of schemas

---
 src/SchemaLoader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 1ee58bb..6f9995e 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -427,10 +427,14 @@ namespace libvariant {
 					for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
 						SearchForTrustedSchemas(m, j->second, uri);
 					}
-				} else if (!HoldsData(i->first) && i->second.IsMap()) {
+				} else if (!HoldsData(i->first)) {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
+		} else if (schema.IsList()) {
+			for (Variant::ListIterator i(schema.ListBegin()), e(schema.ListEnd()); i != e; ++i) {
+				SearchForTrustedSchemas(m, *i, uri);
+			}
 		}
 	}
 
-- 
2.43.0


From 9d174b55f2dd057ba6fe82b9e1c71baf7ea6f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:52 +0000
Subject: [PATCH 069/114] fix: find a schema by its id in a schema that was
 just loaded

---
 src/SchemaLoader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 6f9995e..5e82149 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -138,6 +138,10 @@ namespace libvariant {
 			if (!HandleMissing(baseuri, err)) {
 				throw std::runtime_error(err.GetErrorMessage());
 			}
+			iter = schemas.find(uri);
+			if (iter != schemas.end()) {
+				return iter->second;
+			}
 			iter = schemas.find(baseuri);
 		}
 		if (iter == schemas.end()) {
-- 
2.43.0


From 13ac1bf978fb20bc7576f2fc6cba96283c561689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:19 +0000
Subject: [PATCH 070/114] fix: let Required(false) make an option optional

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1b8235a..0dac268 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -553,7 +553,7 @@ namespace libvariant {
 	}
 
 	ArgParseOption &ArgParseOption::Required(bool req) {
-		impl->required = true;
+		impl->required = req;
 		return *this;
 	}
 
-- 
2.43.0


From fb9740fb3e691bf5b67d7011c570e4fa67d06fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:55 +0000
Subject: [PATCH 071/114] fix: report a missing positional argument

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 0dac268..7340aab 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1667,7 +1667,7 @@ namespace libvariant {
 					}
 				}
 			}
-		} else if (required) {
+		} else if (required || (opt.Contains("minArgs") && opt["minArgs"] > 0)) {
 			std::ostringstream oss;
 			oss << "Error parsing arguments\n";
 			oss << "Required " << OptName(this) << " missing.";
-- 
2.43.0


From 2ce652714ab562461f1d59d44a6ff64496fffb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:21 +0000
Subject: [PATCH 072/114] fix: start every Parse from a clean state

---
 src/ArgParse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 7340aab..06b6773 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -959,6 +959,8 @@ namespace libvariant {
 			resolve_conflicts = old_conflict;
 		}
 
+		print_help = print_adv_help = print_config = false;
+
 		try {
 			std::string shortOpts;
 			std::vector<struct option> longOpts;
@@ -974,6 +976,7 @@ namespace libvariant {
 					{ o.longOpt.c_str(), (o.HasArg() ? 1 : 0), 0, id };
 					longOpts.push_back(tmp_option);
 				}
+				o.result = Variant::NullType;
 				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
 				// Handle environment variables
 				if (o.opt.Contains("env")) {
-- 
2.43.0


From 0fb622e3511f66336deaffa590a1b430064761c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:44 +0000
Subject: [PATCH 073/114] fix: exit with a failure status after an unknown
 option

---
 src/ArgParse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 06b6773..4df0fdd 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -412,7 +412,7 @@ namespace libvariant {
 		void Parse(int argc, char *const *argv);
 		Variant FormResult();
 
-		void PrintHelp(bool advanced) const;
+		void PrintHelp(bool advanced, int status=0) const;
 		void PrintConfig();
 
 		void MergeDescription(Variant desc);
@@ -994,9 +994,9 @@ namespace libvariant {
 			while (true) {
 				int c = getopt_long(argc, argv, shortOpts.c_str(), &longOpts[0], 0);
 				if (c == -1) { break; }
-				if (c == '?') { PrintHelp(false); }
+				if (c == '?') { PrintHelp(false, 1); }
 				optmap_iter o = option_map.find(c);
-				if (o == option_map.end()) { PrintHelp(false); }
+				if (o == option_map.end()) { PrintHelp(false, 1); }
 				ArgParseOptImpl &opt = o->second;
 				opt.HandleOption(optarg);
 			}
@@ -1071,7 +1071,7 @@ namespace libvariant {
 		std::vector<const ArgParseOptImpl*> members;
 	};
 
-	void ArgParseImpl::PrintHelp(bool advanced) const {
+	void ArgParseImpl::PrintHelp(bool advanced, int status) const {
 		std::cerr << title << ": [options]";
 		for (const_arg_iter i(arguments.begin()), e(arguments.end()); i != e; ++i) {
 			const ArgParseOptImpl &arg = *GetOpt(*i);
@@ -1171,7 +1171,7 @@ namespace libvariant {
 		if (!epilog.empty()) {
 			std::cerr << "\n" << epilog << "\n" << std::endl;
 		}
-		exit(0);
+		exit(status);
 	}
 
 	void ArgParseImpl::PrintConfig() {
-- 
2.43.0


From 12f517233841b2c38203481ae1d16b3cca0f631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:12 +0000
Subject: [PATCH 074/114] fix: keep parse results apart from the argument
 description

---
 src/ArgParse.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 4df0fdd..9b6ced2 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1332,7 +1332,7 @@ namespace libvariant {
 			result = arg;
 			break;
 		case ARGACTION_STORE_CONST:
-			result = opt["const"];
+			result = opt["const"].Copy();
 			break;
 		case ARGACTION_STORE_TRUE:
 			if (arg.IsBool()) {
@@ -1632,10 +1632,11 @@ namespace libvariant {
 				case ARGACTION_STORE_CONST:
 				case ARGACTION_STORE_TRUE:
 				case ARGACTION_STORE_FALSE:
-					result = opt["default"];
+					result = opt["default"].Copy();
 					break;
 				case ARGACTION_APPEND:
-					result.Append(opt["default"]);
+					result.Append(opt["default"].Copy());
+					break;
 				case ARGACTION_COUNT:
 				case ARGACTION_HELP:
 				case ARGACTION_ADVHELP:
-- 
2.43.0


From 7afcba136e815f9f9a1554e0933699c11c6c90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:48 +0000
Subject: [PATCH 075/114] fix: measure option text in characters

---
 src/ArgParse.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 9b6ced2..8e92d15 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1392,19 +1392,28 @@ namespace libvariant {
 		}
 	}
 
+	// Length in characters of a UTF-8 string
+	static size_t StringLength(const std::string &str) {
+		size_t length = 0;
+		for (std::string::const_iterator i(str.begin()), e(str.end()); i != e; ++i) {
+			if ((*i & 0xC0) != 0x80) { ++length; }
+		}
+		return length;
+	}
+
 	void ArgParseOptImpl::CheckRequirements(Variant val) {
 
 		switch (val.GetType()) {
 		case Variant::StringType:
-			if (opt.Contains("minLength") && val.Size() < opt["minLength"]) {
+			if (opt.Contains("minLength") && StringLength(val.AsString()) < opt["minLength"].AsUnsigned()) {
 				std::ostringstream oss;
-				oss << "Error parsing arguments\n" << OptName(this) << " is too short: " << val.Size()
+				oss << "Error parsing arguments\n" << OptName(this) << " is too short: " << StringLength(val.AsString())
 					<< " chars, minimum " << opt["minLength"].AsUnsigned();
 				throw std::runtime_error(oss.str());
 			}
-			if (opt.Contains("maxLength") && val.Size() > opt["maxLength"]) {
+			if (opt.Contains("maxLength") && StringLength(val.AsString()) > opt["maxLength"].AsUnsigned()) {
 				std::ostringstream oss;
-				oss << "Error parsing arguments\n" << OptName(this) << " is too long: " << val.Size()
+				oss << "Error parsing arguments\n" << OptName(this) << " is too long: " << StringLength(val.AsString())
 					<< " chars, maximum " << opt["maxLength"].AsUnsigned();
 				throw std::runtime_error(oss.str());
 			}
-- 
2.43.0


From 741aa86446bb1e5be4bad1347bce02de766a42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:26 +0000
Subject: [PATCH 076/114] fix: treat the environment variable of an option as
 its default

---
 src/ArgParse.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 8e92d15..cc766c6 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -230,6 +230,7 @@ namespace libvariant {
 		bool advanced;
 		ArgParseImpl *impl;
 		Variant opt;
+		Variant env;
 		Variant result;
 	};
 
@@ -979,9 +980,13 @@ namespace libvariant {
 				o.result = Variant::NullType;
 				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
 				// Handle environment variables
+				o.env = Variant::NullType;
 				if (o.opt.Contains("env")) {
 					const char *env = getenv(o.opt["env"].AsString().c_str());
-					if (env) { o.HandleOption(env); }
+					if (env) {
+						o.env = o.ParseArg(env);
+						o.CheckRequirements(o.env);
+					}
 				}
 			}
 			{
@@ -1618,7 +1623,9 @@ namespace libvariant {
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
-		if (opt.Contains("default") && result.IsNull()) {
+		Variant def = env;
+		if (def.IsNull() && opt.Contains("default")) { def = opt["default"]; }
+		if (!def.IsNull() && result.IsNull()) {
 			bool add_default = true;
 			for (std::set<std::string>::iterator i(groups.begin()), e(groups.end());
 				i != e; ++i)
@@ -1641,10 +1648,10 @@ namespace libvariant {
 				case ARGACTION_STORE_CONST:
 				case ARGACTION_STORE_TRUE:
 				case ARGACTION_STORE_FALSE:
-					result = opt["default"].Copy();
+					result = def.Copy();
 					break;
 				case ARGACTION_APPEND:
-					result.Append(opt["default"].Copy());
+					result.Append(def.Copy());
 					break;
 				case ARGACTION_COUNT:
 				case ARGACTION_HELP:
-- 
2.43.0


From e0afa951f51ad8c366540e5adb1a247cd3ec28ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:53 +0000
Subject: [PATCH 077/114] fix: reject integer arguments outside the range of
 their type

---
 src/ArgParse.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index cc766c6..e167381 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1538,9 +1538,11 @@ namespace libvariant {
 		{
 			long long val;
 			char *end = 0;
+			errno = 0;
 			val = strtoll(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (val == LLONG_MIN && errno == ERANGE) { ParseArgIntError(arg); }
 			if (!(val == LLONG_MAX && errno == ERANGE)) {
 				return Variant(val);
 			}
@@ -1549,9 +1551,13 @@ namespace libvariant {
 		{
 			char *end = 0;
 			unsigned long long val;
+			errno = 0;
 			val = strtoull(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (val == ULLONG_MAX && errno == ERANGE) { ParseArgIntError(arg); }
+			// strtoull negates a number with a minus sign
+			if (val != 0 && strchr(arg, '-')) { ParseArgIntError(arg); }
 			return Variant(val);
 		}
 		case Variant::FloatType:
-- 
2.43.0


From 484bf6ce0bd8e3e385a4c34fafefe973cad8ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:20 +0000
Subject: [PATCH 078/114] fix: do not take an option that counts from 0 as
 given

---
 src/ArgParse.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index e167381..24d22ee 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -201,6 +201,8 @@ namespace libvariant {
 		void Set(const std::string &key, Variant v) { opt.Set(key, v); }
 		bool HasArg() const { return ArgParseActionHasArg(action); }
 		bool HasResult() { return ArgParseActionHasResult(action); }
+		// A count starts at 0 without being given
+		bool IsSet() const { return !result.IsNull() && !(action == ARGACTION_COUNT && result == 0); }
 		void HandleOption(const char *arg) { Handle(ParseArg(arg)); }
 		void Handle(Variant arg);
 		void CheckRequirements(Variant val);
@@ -795,7 +797,7 @@ namespace libvariant {
 					i != e; ++i)
 			{
 				ArgParseOptImpl *o = *i;
-				if (!o->result.IsNull()) {
+				if (o->IsSet()) {
 					if (!last) {
 						last = o;
 					} else {
@@ -1642,7 +1644,7 @@ namespace libvariant {
 							oend(g->members.end()); o != oend; ++o)
 					{
 						ArgParseOptImpl *opt = *o;
-						if (!opt->result.IsNull()) {
+						if (opt->IsSet()) {
 							add_default = false;
 						}
 					}
@@ -1672,7 +1674,7 @@ namespace libvariant {
 				}
 			}
 		}
-		if (!result.IsNull()) {
+		if (IsSet()) {
 			if (action == ARGACTION_APPEND) {
 				if (opt.Contains("maxArgs") && opt["maxArgs"] != 0) {
 					if (opt["maxArgs"] < result.Size()) {
-- 
2.43.0


From 941442c78618169095fdba6b612a4e98daabcba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:46 +0000
Subject: [PATCH 079/114] fix: report values from a config file that break the
 rules of their option

---
 src/ArgParse.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 24d22ee..cb0dd76 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1246,14 +1246,14 @@ namespace libvariant {
 		case Variant::UnsignedType:
 		case Variant::FloatType:
 		case Variant::StringType:
-			try {
+			if (paths.find(PathString(path)) != paths.end()) {
 				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {}
+			}
 			break;
 		case Variant::ListType:
-			try {
+			if (paths.find(PathString(path)) != paths.end()) {
 				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {
+			} else {
 				unsigned index = 0;
 				for (Variant::ListIterator i(opt.ListBegin()), e(opt.ListEnd());
 						i != e; ++i, ++index) {
-- 
2.43.0


From b98c06e23923df694524c31f41868877258cb3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:38 +0000
Subject: [PATCH 080/114] fix: keep argument descriptions apart from the parser

---
 src/ArgParse.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index cb0dd76..42df9ee 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1627,7 +1627,7 @@ namespace libvariant {
 		o.GetInto(required, "required", required);
 		o.GetInto(advanced, "advanced", false);
 		if (advanced) { impl->have_advanced = true; }
-		opt.Merge(o);
+		opt.Merge(o.Copy());
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
@@ -1748,7 +1748,7 @@ namespace libvariant {
 
 	Variant ArgParseOptImpl::GetDescription() const {
 		Variant desc;
-		desc.Merge(opt);
+		desc.Merge(opt.Copy());
 		if (type == Variant::NullType) {
 			desc.Set("type", type);
 		} else {
-- 
2.43.0


From 5c30c2493c64b71df00a5654a4a66905060a0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:04 +0000
Subject: [PATCH 081/114] fix: allow the default of a constant option in the
 generated schema

---
 src/ArgParse.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 42df9ee..ab620de 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1835,7 +1835,11 @@ namespace libvariant {
 			if (opt.Contains("default")) { s["default"] = opt["default"]; }
 			break;
 		case ARGACTION_STORE_CONST:
-			s["enum"].Append(opt.Get("const"));
+			s["enum"].Append(opt.Get("const").Copy());
+			if (opt.Contains("default")) {
+				s["enum"].Append(opt["default"].Copy());
+				s["default"] = opt["default"].Copy();
+			}
 			break;
 		case ARGACTION_STORE_TRUE:
 		case ARGACTION_STORE_FALSE:
-- 
2.43.0


From 6ff20c2656c7b3dec2572c6776a4e7f3410fc1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:32 +0000
Subject: [PATCH 082/114] fix: take the value of a constant option from the
 config file

---
 src/ArgParse.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index ab620de..9de76d5 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1339,7 +1339,11 @@ namespace libvariant {
 			result = arg;
 			break;
 		case ARGACTION_STORE_CONST:
-			result = opt["const"].Copy();
+			if (arg.IsNull()) {
+				result = opt["const"].Copy();
+			} else {
+				result = arg;
+			}
 			break;
 		case ARGACTION_STORE_TRUE:
 			if (arg.IsBool()) {
-- 
2.43.0


From 3a5f4ec177a40a3c5deeb4d3cf7f6d0f47d5eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:00 +0000
Subject: [PATCH 083/114] fix: merge groups after the arguments they name

---
 src/ArgParse.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 9de76d5..41a7c9b 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1207,16 +1207,6 @@ namespace libvariant {
 				AddOption(keypath, shortOpt, longOpt, helptxt, action)->Init(o);
 			}
 		}
-		if (desc.Contains("groups") && desc["groups"].IsMap()) {
-			Variant grps = desc["groups"];
-			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
-					i != e; ++i)
-			{
-				Variant g = i->second;
-				std::string name = i->first;
-				GetGroup(name)->Init(g);
-			}
-		}
 		if (desc.Contains("arguments") && desc["arguments"].IsList()) {
 			Variant args = desc["arguments"];
 			for (Variant::ListIterator i(args.ListBegin()), e(args.ListEnd());
@@ -1230,6 +1220,16 @@ namespace libvariant {
 				AddArgument(keypath, helptxt, action)->Init(o);
 			}
 		}
+		if (desc.Contains("groups") && desc["groups"].IsMap()) {
+			Variant grps = desc["groups"];
+			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
+					i != e; ++i)
+			{
+				Variant g = i->second;
+				std::string name = i->first;
+				GetGroup(name)->Init(g);
+			}
+		}
 	}
 
 	void ArgParseImpl::MergeOptions(Variant opts) {
-- 
2.43.0


From ad0df96496613e5d466cba644e72b30ed28bbcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:31 +0000
Subject: [PATCH 084/114] fix: describe exclusive groups in the schema by the
 options that are set

---
 src/ArgParse.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 41a7c9b..2ce54ee 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -279,7 +279,7 @@ namespace libvariant {
 		void FinalizeResult();
 		Variant GetDescription() const;
 		void GenerateSchema(VariantRef schema) const;
-		void GroupSchema(VariantRef schema, const ArgParseOptImpl *opt,
+		Variant GroupSchema(const ArgParseOptImpl *opt,
 			   	Path::const_iterator i, Path::const_iterator e) const;
 
 		std::string name;
@@ -858,9 +858,7 @@ namespace libvariant {
 			for (std::set<ArgParseOptImpl*>::const_iterator i(members.begin()), e(members.end());
 					i != e; ++i)
 			{
-				Variant instance;
-				GroupSchema(instance, *i, (*i)->path.begin(), (*i)->path.end());
-				oneof.Append(instance);
+				oneof.Append(GroupSchema(*i, (*i)->path.begin(), (*i)->path.end()));
 			}
 			if (!required) {
 				Variant anyof = Variant().Set("anyOf", oneof.Copy());
@@ -871,23 +869,33 @@ namespace libvariant {
 		}
 	}
 
-	void ArgParseGroupImpl::GroupSchema(VariantRef schema, const ArgParseOptImpl *opt,
+	// Matches when the option is set
+	Variant ArgParseGroupImpl::GroupSchema(const ArgParseOptImpl *opt,
 		   	Path::const_iterator i, Path::const_iterator e) const
 	{
+		Variant schema = Variant::MapType;
 		if (i != e) {
+			Variant sub = GroupSchema(opt, i+1, e);
 			if (i->IsString()) {
+				schema["type"] = "object";
 				schema["required"].Append(i->AsString());
-				GroupSchema(schema["properties"][i->AsString()], opt, i+1, e);
+				schema["properties"].Set(i->AsString(), sub);
 			} else if (i->IsNumber()) {
-				if (!schema.Contains("items")) { schema["items"] = Variant::ListType; }
-				if (schema["items"].Size() < i->AsUnsigned()) {
-					schema["items"].AsList().resize(i->AsUnsigned(), Variant::MapType);
+				unsigned index = i->AsUnsigned();
+				schema["type"] = "array";
+				schema["minItems"] = index + 1;
+				schema["items"] = Variant::ListType;
+				for (unsigned n = 0; n < index; ++n) {
+					schema["items"].Append(Variant(Variant::MapType));
 				}
-				GroupSchema(schema["items"][unsigned(i->AsUnsigned())], opt, i+1, e);
+				schema["items"].Append(sub);
 			}
+		} else if (opt->action == ARGACTION_COUNT) {
+			schema["minimum"] = 1;
 		} else {
-			schema = Variant::MapType;
+			schema["not"] = Variant().Set("type", "null");
 		}
+		return schema;
 	}
 
 	//-------------
-- 
2.43.0


From cdf8289e7311834916327b66d8599297a6dbdb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:18 +0000
Subject: [PATCH 085/114] fix: generate schemas for list elements in any order

---
 src/ArgParse.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 2ce54ee..56bb7f2 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1822,13 +1822,28 @@ namespace libvariant {
 		GenerateSchema(schema["properties"].At(key, Variant::MapType), i+1, e);
 	}
 
+	static void AllowNull(VariantRef schema) {
+		if (schema.Contains("type") && schema["type"].IsString()) {
+			Variant types = Variant::ListType;
+			types.Append(schema["type"]);
+			types.Append("null");
+			schema["type"] = types;
+		}
+		if (schema.Contains("enum")) { schema["enum"].Append(Variant()); }
+	}
+
 	void ArgParseOptImpl::GenerateArraySchema(VariantRef schema, Path::const_iterator i,
 		   	Path::const_iterator e) const
    	{
 		unsigned index = i->AsUnsigned();
 		if (!schema.Contains("type")) { schema["type"] = "array"; }
 		if (!schema.Contains("items")) { schema["items"] = Variant::ListType; }
-		GenerateSchema(schema["items"].At(index, Variant::MapType), i+1, e);
+		while (schema["items"].Size() <= index) {
+			schema["items"].Append(Variant(Variant::MapType));
+		}
+		GenerateSchema(schema["items"][index], i+1, e);
+		// An element that is not set is null when a later one is
+		if (!required) { AllowNull(schema["items"][index]); }
 	}
 
 	Variant ArgParseOptImpl::GenerateSchema() const {
-- 
2.43.0


From 854c13a2967e705b22987e4f8690aa60f4f9f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:18 +0000
Subject: [PATCH 086/114] fix: keep the lower bound of unsigned options in
 descriptions and schemas

---
 src/ArgParse.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 56bb7f2..06ae3f1 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -206,6 +206,8 @@ namespace libvariant {
 		void HandleOption(const char *arg) { Handle(ParseArg(arg)); }
 		void Handle(Variant arg);
 		void CheckRequirements(Variant val);
+		// Constraints including those that follow from the type
+		Variant GetConstraints() const;
 		Variant ParseArg(const char *arg);
 		void Init(Variant o);
 
@@ -1758,9 +1760,17 @@ namespace libvariant {
 		os << "\n";
 	}
 
+	Variant ArgParseOptImpl::GetConstraints() const {
+		Variant ret = opt.Copy();
+		if (type == Variant::UnsignedType && (!ret.Contains("minimum") || ret["minimum"] < 0)) {
+			ret.Set("minimum", 0);
+		}
+		return ret;
+	}
+
 	Variant ArgParseOptImpl::GetDescription() const {
 		Variant desc;
-		desc.Merge(opt.Copy());
+		desc.Merge(GetConstraints());
 		if (type == Variant::NullType) {
 			desc.Set("type", type);
 		} else {
@@ -1848,6 +1858,7 @@ namespace libvariant {
 
 	Variant ArgParseOptImpl::GenerateSchema() const {
 		Variant s = Variant::MapType;
+		const Variant opt = GetConstraints();
 		if (opt.Contains("title")) { s["title"] = opt["title"]; }
 		if (opt.Contains("description")) { s["description"] = opt["description"]; }
 		switch (action) {
-- 
2.43.0


From 119d667d62d3edef801dd0840776a8b6392ba755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:14 +0000
Subject: [PATCH 087/114] fix: let a YAML anchor defined again take its new
 value

---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 84db26c..be45154 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -49,7 +49,7 @@ namespace libvariant {
 		{}
 
 		void Anchor(const char *anchor, Variant v) {
-			if (anchor) { anchors.insert(std::make_pair(std::string(anchor), v)); }
+			if (anchor) { anchors[anchor] = v; }
 		}
 
 		Variant Anchor(const char *anchor) {
-- 
2.43.0


From 6f2c30516964eaba579544540dbb2a2eba2c1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:17 +0000
Subject: [PATCH 088/114] fix: remember YAML anchors placed on map keys

---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index be45154..061ddc9 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -163,11 +163,11 @@ namespace libvariant {
 	   	}
 
 		virtual void SetValue(ParserImpl *p, Variant v, const char *anchor) {
+			state->Anchor(anchor, v);
 			if (expect_key) {
 				key = v.AsString();
 				expect_key = false;
 			} else {
-				state->Anchor(anchor, v);
 				result[key] = v;
 				expect_key = true;
 			}
-- 
2.43.0


From 5169a278d9945b2b44886ae519b1f9986a36f648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:30:48 +0000
Subject: [PATCH 089/114] fix: create the built-in schema once even when
 threads ask for it together

---
 src/SchemaLoader.cc | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 5e82149..facfbbf 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -51,18 +51,9 @@ namespace libvariant {
 		Variant JSON_SCHEMA_SCHEMA;
 		std::string SCHEMA_URI;
 	};
-	shared_ptr<SchemaStaticData> schema_static_data;
-
 	SchemaStaticData *GetSchemaStaticData() {
-		// This is actually a race condition when multithreading is used, but
-		// every thread will write the same data, so this is "OK" as long as
-		// the CPU cache coherency is reasonable.
-		if (!schema_static_data.get()) {
-			shared_ptr<SchemaStaticData> new_schema_static_data;
-			new_schema_static_data.reset(new SchemaStaticData);
-			schema_static_data = new_schema_static_data;
-		}
-		return schema_static_data.get();
+		static SchemaStaticData schema_static_data;
+		return &schema_static_data;
 	}
 
 	SchemaLoader::SchemaLoader()
-- 
2.43.0


From e60e2aff7a3ac4266e4ede4ddabfba640a2c9f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:45 +0000
Subject: [PATCH 090/114] fix: leave the documents alone while computing a JSON
 patch

---
 src/Extensions.cc | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index f7d58ac..5b518e1 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -759,8 +759,9 @@ namespace libvariant {
 		}
 	}
 
-	void JSONDiffRef(VariantRef src, VariantRef dst, VariantRef diff, Path &path) {
-		if (!dst.Exists()) {
+	// src and dst are null where there is no value
+	static void JSONDiffImpl(const Variant *src, const Variant *dst, Variant &diff, Path &path) {
+		if (!dst) {
 			diff.Append(
 					Variant()
 					.Set("op", "remove")
@@ -768,37 +769,37 @@ namespace libvariant {
 					);
 			return;
 		}
-		if (!src.Exists()) {
+		if (!src) {
 			diff.Append(
 					Variant()
 					.Set("op", "add")
 					.Set("path", FormJSONPointer(path))
-					.Set("value", dst.Copy())
+					.Set("value", dst->Copy())
 					);
 			return;
 		}
-		if (src.GetType() != dst.GetType()) {
+		if (src->GetType() != dst->GetType()) {
 			diff.Append(
 					Variant()
 					.Set("op", "replace")
 					.Set("path", FormJSONPointer(path))
-					.Set("value", dst.Copy())
+					.Set("value", dst->Copy())
 					);
 			return;
 		}
-		if (src != dst) {
-			switch (src.GetType()) {
+		if (*src != *dst) {
+			switch (src->GetType()) {
 			case Variant::ListType:
 				{
-					for (uintmax_t i = 0; i < dst.Size(); ++i) {
+					for (uintmax_t i = 0; i < dst->Size(); ++i) {
 						path.push_back(PathElement(i));
-							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+							JSONDiffImpl(i < src->Size() ? &src->At(i) : 0, &dst->At(i), diff, path);
 						path.pop_back();
 					}
 					// from the back, as each removal moves the elements behind it
-					for (uintmax_t i = src.Size(); i > dst.Size(); --i) {
+					for (uintmax_t i = src->Size(); i > dst->Size(); --i) {
 						path.push_back(PathElement(i - 1));
-							JSONDiffRef(src.At(i - 1), dst.At(i - 1), diff, path);
+							JSONDiffImpl(&src->At(i - 1), 0, diff, path);
 						path.pop_back();
 					}
 				}
@@ -807,15 +808,16 @@ namespace libvariant {
 				{
 					std::set<std::string> keys;
 					Variant::ConstMapIterator i, e;
-					for (i = dst.MapBegin(), e = dst.MapEnd(); i != e; ++i) {
+					for (i = dst->MapBegin(), e = dst->MapEnd(); i != e; ++i) {
 						keys.insert(i->first);
 					}
-					for (i = src.MapBegin(), e = src.MapEnd(); i != e; ++i) {
+					for (i = src->MapBegin(), e = src->MapEnd(); i != e; ++i) {
 						keys.insert(i->first);
 					}
 					for (std::set<std::string>::iterator i(keys.begin()), e(keys.end()); i != e; ++i) {
 						path.push_back(PathElement(*i));
-						JSONDiffRef(src.At(*i), dst.At(*i), diff, path);
+						JSONDiffImpl(src->Contains(*i) ? &src->At(*i) : 0,
+								dst->Contains(*i) ? &dst->At(*i) : 0, diff, path);
 						path.pop_back();
 					}
 				}
@@ -825,7 +827,7 @@ namespace libvariant {
 						Variant()
 						.Set("op", "replace")
 						.Set("path", FormJSONPointer(path))
-						.Set("value", dst.Copy())
+						.Set("value", dst->Copy())
 						);
 				break;
 			}
@@ -835,7 +837,7 @@ namespace libvariant {
 	Variant JSONDiff(const Variant &src, const Variant &dst) {
 		Path path;
 		Variant diff = Variant::ListType;
-		JSONDiffRef(src, dst, diff, path);
+		JSONDiffImpl(src.Exists() ? &src : 0, dst.Exists() ? &dst : 0, diff, path);
 		return diff;
 	}
 }
-- 
2.43.0


From f33a5c78c243f374e16153b758654102e59ce367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:19 +0000
Subject: [PATCH 091/114] fix: read the path parameters without creating
 references

---
 src/Extensions.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 5b518e1..487428a 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -123,7 +123,7 @@ namespace libvariant {
 	void FlattenPathTo( VariantRef flat, const Variant &var, Variant params, string prefix ) {
 		switch ( var.GetType() ) {
 		case Variant::ListType:
-			if ( (!params["noSimpleLists"].AsBool()) && SimpleList(var) ) {
+			if ( (!params.Get("noSimpleLists").AsBool()) && SimpleList(var) ) {
 				if( prefix.size() ) {
 					flat[prefix] = var.Copy();
 				} else {
@@ -135,9 +135,9 @@ namespace libvariant {
 					if ( prefix.size() ) {
 						tmp << prefix;
 					}
-					tmp << params["indexPrefix"].AsString();
+					tmp << params.Get("indexPrefix").AsString();
 					tmp << i;
-					tmp << params["indexSuffix"].AsString();
+					tmp << params.Get("indexSuffix").AsString();
 					FlattenPathTo( flat, var[i], params, tmp.str() );
 				}
 			}
@@ -146,9 +146,9 @@ namespace libvariant {
 			for( Variant::ConstMapIterator i(var.MapBegin()), e(var.MapEnd()); i != e; ++i ) {
 				stringstream tmp;
 				if ( prefix.size() ) {
-					tmp << prefix + params["pathDelimiter"].AsString();
+					tmp << prefix + params.Get("pathDelimiter").AsString();
 				} else {
-					tmp << params["pathPrefix"].AsString();
+					tmp << params.Get("pathPrefix").AsString();
 				}
 				tmp << i->first;
 				FlattenPathTo( flat, i->second, params, tmp.str());
@@ -174,7 +174,7 @@ namespace libvariant {
 
 		for ( Variant::ConstMapIterator i(var.MapBegin()), e(var.MapEnd()); i != e; ++i ) {
 			string path = i->first;
-			string delimiter = params["pathDelimiter"].AsString();
+			string delimiter = params.Get("pathDelimiter").AsString();
 			if ( delimiter.length() != 1 ) {
 				throw runtime_error("# ExpandPathTo() - Delimiter is not a single char");
 			}
@@ -198,7 +198,7 @@ namespace libvariant {
 			case Variant::ListType:
 				for ( unsigned j = 0; j < i->second.Size(); ++j ) {
 					if (j != 0){
-						tmp << params["listDelimiter"].AsString();
+						tmp << params.Get("listDelimiter").AsString();
 					}
 					tmp << i->second[j].AsString();
 				}
-- 
2.43.0


From bbedbc22b7eca8a99ba841c51753bf0527028e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:23 +0000
Subject: [PATCH 092/114] fix: read the YAML emitter parameters without
 creating references

---
 src/YAMLEmitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 4f833a3..71057d4 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -66,7 +66,7 @@ namespace libvariant {
 			for (int i = 0; param_keys[i]; ++i) {
 				const char *key = param_keys[i];
 				if (params.Contains(key)) {
-					SetParam((ConfigKeys)i, params[key]);
+					SetParam((ConfigKeys)i, params.Get(key));
 				}
 			}
 		}
-- 
2.43.0


From 288d216421c2e1a8d994ebfb04bba37e9a8b732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:46 +0000
Subject: [PATCH 093/114] fix: give every schema loader its own copy of the
 built-in schema

---
 src/SchemaLoader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index facfbbf..606de62 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -62,7 +62,7 @@ namespace libvariant {
 		base(0)
    	{
 		SchemaStaticData *d = GetSchemaStaticData();
-		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA;
+		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA.Copy();
 	}
 
 	SchemaLoader::SchemaLoader(SchemaLoader *b)
@@ -72,7 +72,7 @@ namespace libvariant {
 	{
 		DBPRINT("schema loader\n");
 		SchemaStaticData *d = GetSchemaStaticData();
-		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA;
+		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA.Copy();
 	}
 
 	SchemaLoader::~SchemaLoader() {}
-- 
2.43.0


From a3ac4efd190f56539232836626183d7247cfa63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:54 +0000
Subject: [PATCH 094/114] fix: validate without creating references into the
 schema and the data

---
 src/Schema.cc | 82 +++++++++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 71a2089..73eefef 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -116,9 +116,9 @@ namespace libvariant {
 		SchemaContext &ctx;
 	};
 
-	void SchemaValidate(SchemaContext &ctx, Variant schema, Variant data);
+	void SchemaValidate(SchemaContext &ctx, const Variant &schema, const Variant &data);
 
-	void ValidateNot(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateNot(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("not")) { return; }
 		AutoSchemaPath spath(ctx, "not");
 		SchemaContext notctx(ctx);
@@ -131,7 +131,7 @@ namespace libvariant {
 		ctx.AddError("Data matches schema from \"not\"");
 	}
 
-	void ValidateOneOf(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateOneOf(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("oneOf")) { return; }
 		AutoSchemaPath spath(ctx, "oneOf");
 		if (!schema["oneOf"].IsList()) {
@@ -143,7 +143,7 @@ namespace libvariant {
 		unsigned num_validates = 0;
 		unsigned index = 0;
 		unsigned validIndex = 0;
-		for (Variant::ListIterator i(schema["oneOf"].ListBegin()), e(schema["oneOf"].ListEnd());
+		for (Variant::ConstListIterator i(schema["oneOf"].ListBegin()), e(schema["oneOf"].ListEnd());
 				i != e; ++i, ++index)
 		{
 			SchemaContext subctx(ctx);
@@ -167,7 +167,7 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateAnyOf(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateAnyOf(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("anyOf")) { return; }
 		AutoSchemaPath spath(ctx, "anyOf");
 		if (!schema["anyOf"].IsList()) {
@@ -177,7 +177,7 @@ namespace libvariant {
 		ValidationError error("Data does not match any schema from \"anyOf\"",
 			   	ctx.data_path, ctx.schema_path);
 		unsigned index = 0;
-		for (Variant::ListIterator i(schema["anyOf"].ListBegin()), e(schema["anyOf"].ListEnd());
+		for (Variant::ConstListIterator i(schema["anyOf"].ListBegin()), e(schema["anyOf"].ListEnd());
 				i != e; ++i, ++index)
 		{
 			SchemaContext subctx(ctx);
@@ -191,7 +191,7 @@ namespace libvariant {
 		ctx.AddError(error);
 	}
 
-	void ValidateAllOf(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateAllOf(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("allOf")) { return; }
 		AutoSchemaPath spath(ctx, "allOf");
 		if (!schema["allOf"].IsList()) {
@@ -199,7 +199,7 @@ namespace libvariant {
 			return;
 		}
 		unsigned index = 0;
-		for (Variant::ListIterator i(schema["allOf"].ListBegin()), e(schema["allOf"].ListEnd());
+		for (Variant::ConstListIterator i(schema["allOf"].ListBegin()), e(schema["allOf"].ListEnd());
 				i != e; ++i, ++index)
 		{
 			AutoSchemaPath spath(ctx, index);
@@ -207,7 +207,7 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateCombinations(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateCombinations(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		ValidateAllOf(ctx, schema, data);
 		ValidateAnyOf(ctx, schema, data);
 		ValidateOneOf(ctx, schema, data);
@@ -222,15 +222,15 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateObjectDependencies(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateObjectDependencies(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (schema.Contains("dependencies")) {
-			Variant deps = schema["dependencies"];
+			const Variant &deps = schema["dependencies"];
 			AutoSchemaPath spath(ctx, "dependencies");
 			if (!deps.IsMap()) {
 				ctx.AddSchemaError("Schema key \"dependencies\" must be an object.");
 				return;
 			}
-			for (Variant::MapIterator i(deps.MapBegin()), e(deps.MapEnd()); i != e; ++i) {
+			for (Variant::ConstMapIterator i(deps.MapBegin()), e(deps.MapEnd()); i != e; ++i) {
 				if (data.Contains(i->first)) {
 					AutoSchemaPath spath(ctx, i->first);
 					if (i->second.IsString()) {
@@ -296,13 +296,13 @@ namespace libvariant {
 		Variant schema;
 	};
 
-	void ValidateObjectProperties(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateObjectProperties(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		// Precompile because we always match against all of them for every key
 		std::vector< shared_ptr<PatternProperty> > patternProperties;
 		if (schema.Contains("patternProperties")) {
 			AutoSchemaPath spath(ctx, "patternProperties");
 			if (schema["patternProperties"].IsMap()) {
-				for (Variant::MapIterator i(schema["patternProperties"].MapBegin()),
+				for (Variant::ConstMapIterator i(schema["patternProperties"].MapBegin()),
 						e(schema["patternProperties"].MapEnd()); i != e; ++i)
 				{
 					try {
@@ -325,7 +325,7 @@ namespace libvariant {
 			ctx.AddSchemaError("\"properties\" must be an object");
 			properties = Variant::MapType;
 		}
-		for (Variant::MapIterator i(data.MapBegin()), e(data.MapEnd());
+		for (Variant::ConstMapIterator i(data.MapBegin()), e(data.MapEnd());
 				i != e; ++i)
 		{
 			bool matchFound = false;
@@ -349,7 +349,7 @@ namespace libvariant {
 			// If no match was found for either of the previous cases validate
 			// against additionalProperties
 			if (!matchFound && schema.Contains("additionalProperties")) {
-				Variant additionalProps = schema["additionalProperties"];
+				const Variant &additionalProps = schema["additionalProperties"];
 				AutoSchemaPath spath(ctx, "additionalProperties");
 				if (additionalProps.IsBool()) {
 					if (!additionalProps.AsBool()) {
@@ -362,16 +362,16 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateObjectRequiredProperties(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateObjectRequiredProperties(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (schema.Contains("required")) {
 			unsigned index = 0;
-			Variant required = schema["required"];
+			const Variant &required = schema["required"];
 			AutoSchemaPath spath(ctx, "required");
 			if (!required.IsList()) {
 				ctx.AddSchemaError("\"required\" must be a list of required keys");
 				return;
 			}
-			for (Variant::ListIterator i(required.ListBegin()), e(required.ListEnd());
+			for (Variant::ConstListIterator i(required.ListBegin()), e(required.ListEnd());
 					i != e; ++i, ++index)
 			{
 				AutoSchemaPath spath(ctx, index);
@@ -390,7 +390,7 @@ namespace libvariant {
 		// TODO: Add v3 compatibility by checking required keys in properties?
 	}
 
-	void ValidateObjectMinMaxProperties(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateObjectMinMaxProperties(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (schema.Contains("minProperties")) {
 			AutoSchemaPath spath(ctx, "minProperties");
 			if (schema["minProperties"].IsNumber()) {
@@ -419,7 +419,7 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateObject(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateObject(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!data.IsMap() || data.IsNull()) { return; }
 		ValidateObjectMinMaxProperties(ctx, schema, data);
 		ValidateObjectRequiredProperties(ctx, schema, data);
@@ -427,11 +427,11 @@ namespace libvariant {
 		ValidateObjectDependencies(ctx, schema, data);
 	}
 
-	void ValidateArrayItems(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateArrayItems(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("items")) { return; }
 		if (!data.IsList()) { return; }
 		if (schema["items"].IsList()) {
-			Variant items = schema["items"];
+			const Variant &items = schema["items"];
 			unsigned datalength = data.Size();
 			unsigned itemlength = items.Size();
 			for (unsigned i(0); i < datalength; ++i) {
@@ -461,7 +461,7 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateArrayUniqueItems(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateArrayUniqueItems(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("uniqueItems")) { return; }
 		AutoSchemaPath spath(ctx, "uniqueItems");
 		if (!schema["uniqueItems"].IsBool()) {
@@ -481,7 +481,7 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateArrayLength(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateArrayLength(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (schema.Contains("minItems")) {
 			AutoSchemaPath spath(ctx, "minItems");
 			if (schema["minItems"].IsNumber()) {
@@ -510,14 +510,14 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateArray(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateArray(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!data.IsList()) { return; }
 		ValidateArrayLength(ctx, schema, data);
 		ValidateArrayUniqueItems(ctx, schema, data);
 		ValidateArrayItems(ctx, schema, data);
 	}
 
-	void ValidateStringFormat(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateStringFormat(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("format")) { return; }
 		AutoSchemaPath spath(ctx, "format");
 		if (!schema["format"].IsString()) { return; }
@@ -587,7 +587,7 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateStringPattern(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateStringPattern(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("pattern")) { return; }
 		AutoSchemaPath spath(ctx, "pattern");
 		if (!schema["pattern"].IsString()) {
@@ -631,7 +631,7 @@ namespace libvariant {
 		return length;
 	}
 
-	void ValidateStringLength(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateStringLength(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		uintmax_t length = StringLength(data.AsString());
 		if (schema.Contains("minLength")) {
 			AutoSchemaPath spath(ctx, "minLength");
@@ -661,14 +661,14 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateString(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateString(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!data.IsString()) { return; }
 		ValidateStringLength(ctx, schema, data);
 		ValidateStringPattern(ctx, schema, data);
 		ValidateStringFormat(ctx, schema, data);
 	}
 
-	void ValidateMinMax(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateMinMax(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (schema.Contains("minimum")) {
 			if (schema["minimum"].IsNumber()) {
 				if (data < schema["minimum"]) {
@@ -715,7 +715,7 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateMultipleOf(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateMultipleOf(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		std::string multkey;
 		if (schema.Contains("multipleOf")) {
 			multkey = "multipleOf";
@@ -755,21 +755,21 @@ namespace libvariant {
 		}
 	}
 
-	void ValidateNumeric(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateNumeric(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!data.IsNumber()) { return; }
 		ValidateMultipleOf(ctx, schema, data);
 		ValidateMinMax(ctx, schema, data);
 	}
 
-	void ValidateEnum(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateEnum(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("enum")) { return; }
-		Variant enm = schema["enum"];
+		const Variant &enm = schema["enum"];
 		AutoSchemaPath spath(ctx, "enum");
 		if (!enm.IsList()) {
 			ctx.AddSchemaError("\"enum\" must be an array");
 			return;
 		}
-		for (Variant::ListIterator i(enm.ListBegin()), e(enm.ListEnd()); i!=e; ++i) {
+		for (Variant::ConstListIterator i(enm.ListBegin()), e(enm.ListEnd()); i!=e; ++i) {
 			if (i->Comparable(data) && *i == data) { return; }
 		}
 		std::ostringstream oss;
@@ -778,7 +778,7 @@ namespace libvariant {
 		ctx.AddError(oss.str());
 	}
 
-	void ValidateType(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateType(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		if (!schema.Contains("type")) { return; }
 		AutoSchemaPath spath(ctx, "type");
 		std::vector<Variant> allowed_types;
@@ -791,7 +791,7 @@ namespace libvariant {
 		}
 		std::ostringstream oss;
 		unsigned index = 0;
-		for (Variant::ListIterator i(allowed_types.begin()), e(allowed_types.end());
+		for (Variant::ConstListIterator i(allowed_types.begin()), e(allowed_types.end());
 				i != e; ++i, ++index) {
 			if (*i == "array") {
 				if (data.IsList()) { return; }
@@ -820,7 +820,7 @@ namespace libvariant {
 			oss << ": \"" << allowed_types.front().AsString() << "\"";
 		} else {
 			oss << " one of: [";
-			for (Variant::ListIterator i(allowed_types.begin()), e(allowed_types.end());
+			for (Variant::ConstListIterator i(allowed_types.begin()), e(allowed_types.end());
 					i != e; ++i) {
 				oss << "\"" <<  i->AsString() << "\"";
 				if (i+1 != e) { oss << ", "; }
@@ -830,12 +830,12 @@ namespace libvariant {
 		ctx.AddError(oss.str());
 	}
 
-	void ValidateBasic(SchemaContext &ctx, Variant schema, Variant data) {
+	void ValidateBasic(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		ValidateType(ctx, schema, data);
 		ValidateEnum(ctx, schema, data);
 	}
 
-	void SchemaValidate(SchemaContext &ctx, Variant schema, Variant data) {
+	void SchemaValidate(SchemaContext &ctx, const Variant &schema, const Variant &data) {
 		AutoDepth depth(ctx);
 		// Empty schema always validates
 		if (!schema.IsMap()) { return; }
-- 
2.43.0


From fc88cbbcda1571c861fff292c008cf802bf6ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:48 +0000
Subject: [PATCH 095/114] fix: initialise libxml2 once before the first XML
 parser is used

---
 src/XMLPLISTParser.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 3a74629..ff53fa3 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -24,6 +24,7 @@
 #include <stdexcept>
 #include <stdlib.h>
 #include <string.h>
+#include <libxml/parser.h>
 #include "XMLPLISTDefs.h"
 #include "Base64.h"
 
@@ -336,9 +337,15 @@ namespace libvariant {
 		return 0;
 	}
 
+	struct XMLInit {
+		XMLInit() { xmlInitParser(); }
+	};
+
 	XMLPLISTParserImpl::XMLPLISTParserImpl(shared_ptr<ParserInput> in)
 		: input(in), closed(false), err(false)
    	{
+		// libxml2 must be initialised by one thread only
+		static const XMLInit xml_init;
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
 		if (!reader) {
-- 
2.43.0


From cd5341720e426caaad162086ee13da931010eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:20 +0000
Subject: [PATCH 096/114] fix: initialise libxml2 once before the first XML
 emitter is used

---
 src/XMLPLISTDefs.h     |  5 +++++
 src/XMLPLISTEmitter.cc |  1 +
 src/XMLPLISTParser.cc  | 11 ++++++-----
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/XMLPLISTDefs.h b/src/XMLPLISTDefs.h
index ef7ebe4..7170430 100644
--- a/src/XMLPLISTDefs.h
+++ b/src/XMLPLISTDefs.h
@@ -34,4 +34,9 @@
 #define KEY_NAME "key"
 #define BLOB_NAME "data"
 
+namespace libvariant {
+	// Initialise libxml2, which must be done by one thread only
+	void InitXML();
+}
+
 #endif
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 05cc277..4204c0c 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -56,6 +56,7 @@ namespace libvariant {
 			params.GetInto(indent, "indent", indent);
 			params.GetInto(precision, "precision", precision);
 		}
+		InitXML();
 		xmlOutputBufferPtr xmloutput = xmlOutputBufferCreateIO(&XMLPLISTEmitterImpl::DoWrite,
 				&XMLPLISTEmitterImpl::DoClose,
 				(void*)this, 0);
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index ff53fa3..672c54b 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -337,15 +337,16 @@ namespace libvariant {
 		return 0;
 	}
 
-	struct XMLInit {
-		XMLInit() { xmlInitParser(); }
-	};
+	void InitXML() {
+		static const struct XMLInit {
+			XMLInit() { xmlInitParser(); }
+		} xml_init;
+	}
 
 	XMLPLISTParserImpl::XMLPLISTParserImpl(shared_ptr<ParserInput> in)
 		: input(in), closed(false), err(false)
    	{
-		// libxml2 must be initialised by one thread only
-		static const XMLInit xml_init;
+		InitXML();
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
 		if (!reader) {
-- 
2.43.0


From 37dee246ca1c732c20c760ea99af4d1a1eff4c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:27 +0000
Subject: [PATCH 097/114] fix: report input that cannot be opened and output
 that cannot be written in varsh

---
 src/varsh.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index 3595288..ab6cc2d 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -216,17 +216,29 @@ int main(int argc, char **argv) {
 	ostream *output = &cout;
 	if (state.conf.Contains("output")) {
 		output_file.open(state.conf["output"].AsString().c_str());
+		if (!output_file) {
+			cerr << "Unable to open file " << state.conf["output"].AsString() << endl;
+			return 1;
+		}
 		output = &output_file;
 	}
 
 	if (state.conf.Contains("input")) {
 		for (Variant::ListIterator i(state.conf["input"].ListBegin()), e(state.conf["input"].ListEnd()); i != e; ++i) {
 			ifstream input(i->AsString().c_str());
+			if (!input) {
+				cerr << "Unable to open file " << i->AsString() << endl;
+				return 1;
+			}
 			Process(state, *output, input);
 		}
 	} else {
 		Process(state, *output, cin);
 	}
+	if (!output->flush()) {
+		cerr << "Unable to write the output" << endl;
+		return 1;
+	}
 	return 0;
 }
 
-- 
2.43.0


From 325f6aabf854379b8bb8f8bb09900bb96b7b525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:46 +0000
Subject: [PATCH 098/114] fix: allow assigning a variant from a list or map
 inside itself

---
 include/Variant/Variant.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Variant/Variant.h b/include/Variant/Variant.h
index a01d238..5a566c5 100644
--- a/include/Variant/Variant.h
+++ b/include/Variant/Variant.h
@@ -393,14 +393,16 @@ namespace libvariant {
 
 		template<typename T>
 		void Assign(const std::vector<T> &v) {
+			List list(v.begin(), v.end()); // v may be inside this
 			Assign(VariantDefines::ListType);
-			AsList().assign(v.begin(), v.end());
+			AsList().swap(list);
 		}
 
 		template<typename T>
 		void Assign(const std::map<std::string, T> &v) {
+			Map map(v.begin(), v.end()); // v may be inside this
 			Assign(VariantDefines::MapType);
-			AsMap().insert(v.begin(), v.end());
+			AsMap().swap(map);
 		}
 
 	protected:
-- 
2.43.0


From 60254659a5998b1fc1d5fce87bde897c84c605d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:07 +0000
Subject: [PATCH 099/114] fix: write and read numbers the same whatever the C++
 locale

---
 src/BundleHdrEmitter.cc | 4 ++++
 src/Extensions.cc       | 3 +++
 src/JSONEmitter.cc      | 4 ++++
 src/Path.cc             | 3 +++
 src/Variant.cc          | 7 +++++++
 src/XMLPLISTEmitter.cc  | 4 ++++
 src/YAMLEmitter.cc      | 4 ++++
 7 files changed, 29 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 4c04000..9e8c8cf 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -3,6 +3,7 @@
  * \brief 
  */
 #include "BundleHdrEmitter.h"
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <stdexcept>
@@ -98,18 +99,21 @@ namespace libvariant {
 
 	void BundleHdrEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
diff --git a/src/Extensions.cc b/src/Extensions.cc
index 487428a..2c686ef 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -19,6 +19,7 @@
  * \brief Useful extension functions for Variants
  */
 
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <Variant/Variant.h>
@@ -132,6 +133,7 @@ namespace libvariant {
 			} else {
 				for( unsigned i=0; i < var.Size(); ++i ) {
 					stringstream tmp;
+					tmp.imbue(std::locale::classic());
 					if ( prefix.size() ) {
 						tmp << prefix;
 					}
@@ -624,6 +626,7 @@ namespace libvariant {
 
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
+		ret.imbue(std::locale::classic());
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index ad087ca..7924f7a 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -21,6 +21,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <stdexcept>
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <algorithm>
@@ -118,6 +119,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(intmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -125,6 +127,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(uintmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -132,6 +135,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(double v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		if (strict && (std::isnan(v) || std::isinf(v))) {
 			throw std::runtime_error("JSONEmitter: The JSON specification does not permit"
 					" numeric types that cannot be represented as a series of digits.");
diff --git a/src/Path.cc b/src/Path.cc
index 9b61b0b..3eae034 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -3,6 +3,7 @@
  * \brief 
  */
 #include <Variant/Path.h>
+#include <locale>
 #include <sstream>
 #include <limits>
 #include <stdexcept>
@@ -23,6 +24,7 @@ namespace libvariant {
 			} else if (index) {
 				if (*c == ']') {
 					std::istringstream iss(frag);
+					iss.imbue(std::locale::classic());
 					unsigned long long i = 0;
 					if (!(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
@@ -86,6 +88,7 @@ namespace libvariant {
 	std::string PathString(const Path &path) {
 		if (path.empty()) { return "/"; }
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsString()) {
 				std::string fragment = i->AsString();
diff --git a/src/Variant.cc b/src/Variant.cc
index 8dd7a89..45dfd61 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -21,6 +21,7 @@
  */
 #include <Variant/Variant.h>
 #include "ParseBool.h"
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <string.h>
@@ -886,6 +887,7 @@ namespace libvariant {
 
 		std::string Integer::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.imbue(std::locale::classic());
 			oss << that->i;
 			return oss.str();
 		}
@@ -945,6 +947,7 @@ namespace libvariant {
 
 		std::string Unsigned::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.imbue(std::locale::classic());
 			oss << that->u;
 			return oss.str();
 		}
@@ -1006,6 +1009,7 @@ namespace libvariant {
 
 		std::string Float::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.imbue(std::locale::classic());
 			oss << that->f;
 			return oss.str();
 		}
@@ -1076,6 +1080,7 @@ namespace libvariant {
 
 		long double String::AsLongDouble(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			long double val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "a float"); }
@@ -1084,6 +1089,7 @@ namespace libvariant {
 
 		uintmax_t String::AsUnsigned(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			uintmax_t val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "an unsigned"); }
@@ -1092,6 +1098,7 @@ namespace libvariant {
 
 		intmax_t String::AsInt(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			intmax_t val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "an int"); }
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 4204c0c..a14bdf2 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -21,6 +21,7 @@
 
 #include "XMLPLISTEmitter.h"
 #include <Variant/EmitterOutput.h>
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <limits>
@@ -145,6 +146,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(intmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -153,6 +155,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(uintmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -161,6 +164,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(double v) {
 		StartElement(FLOAT_NAME);
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << std::setprecision(precision) << std::showpoint << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 71057d4..1350c20 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -21,6 +21,7 @@
  */
 #include "YAMLEmitter.h"
 #include <Variant/EmitterOutput.h>
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <limits>
@@ -334,18 +335,21 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
-- 
2.43.0


From 1ee08978966b6cb2f351153bbbef6e28315453ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:02 +0000
Subject: [PATCH 100/114] fix: read floating point numbers the same whatever
 the C locale

---
 src/ArgParse.cc       |  3 ++-
 src/GuessScalar.cc    |  3 ++-
 src/StrToD.h          | 36 ++++++++++++++++++++++++++++++++++++
 src/XMLPLISTParser.cc |  3 ++-
 4 files changed, 42 insertions(+), 3 deletions(-)
 create mode 100644 src/StrToD.h

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 06ae3f1..4c8b28b 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -22,6 +22,7 @@
 #include <unistd.h>
 #include "GuessScalar.h"
 #include "ParseBool.h"
+#include "StrToD.h"
 
 #if 0
 #define DBPRINT(x) std::cout << x
@@ -1579,7 +1580,7 @@ namespace libvariant {
 		case Variant::FloatType:
 		{
 			char *end = 0;
-			double val = strtod(arg, &end);
+			double val = StrToD(arg, &end);
 			if ((val == 0 && end == arg) || (arg + len != end)) {
 				std::ostringstream oss;
 				oss << "Error parsing arguments\nUnable to convert \"" << arg << "\" to a number";
diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 60f92da..28cfea5 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -4,6 +4,7 @@
  */
 #include "GuessScalar.h"
 #include <stdlib.h>
+#include "StrToD.h"
 #include <regex.h>
 #include <errno.h>
 #include <limits>
@@ -106,7 +107,7 @@ namespace libvariant {
 				val = strtoull(&value[match[MATCH_INT16].rm_so], 0, 16);
 				action->Scalar(p, uintmax_t(val), anchor, tag);
 			} else if (match[MATCH_FLOAT].rm_so != -1) {
-				double val = strtod(&value[match[MATCH_FLOAT].rm_so], 0);
+				double val = StrToD(&value[match[MATCH_FLOAT].rm_so], 0);
 				action->Scalar(p, val, anchor, tag);
 			} else if (match[MATCH_INF].rm_so != -1) {
 				double val = std::numeric_limits<double>::infinity();
diff --git a/src/StrToD.h b/src/StrToD.h
new file mode 100644
index 0000000..2950616
--- /dev/null
+++ b/src/StrToD.h
@@ -0,0 +1,36 @@
+//=============================================================================
+//	This library is free software; you can redistribute it and/or modify it
+//	under the terms of the GNU Library General Public License as published
+//	by the Free Software Foundation; either version 2 of the License, or
+//	(at your option) any later version.
+//
+//	This library is distributed in the hope that it will be useful,
+//	but WITHOUT ANY WARRANTY; without even the implied warranty of
+//	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU
+//	Library General Public License for more details.
+//
+//	The GNU Public License is available in the file LICENSE, or you
+//	can write to the Free Software Foundation, Inc., 59 Temple Place -
+//	Suite 330, Boston, MA 02111-1307, USA, or you can find it on the
+//	World Wide Web at http://www.fsf.org.
+//=============================================================================
+/** \file
+ * \brief Number parsing that does not depend on the locale
+ */
+#ifndef VARIANT_STRTOD_H
+#define VARIANT_STRTOD_H
+#pragma once
+
+#include <locale.h>
+#include <stdlib.h>
+
+namespace libvariant {
+
+	/// strtod with the decimal point of the "C" locale, whatever locale is set.
+	inline double StrToD(const char *str, char **end) {
+		static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", (locale_t)0);
+		return strtod_l(str, end, c_locale);
+	}
+
+}
+#endif
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 672c54b..120d060 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -27,6 +27,7 @@
 #include <libxml/parser.h>
 #include "XMLPLISTDefs.h"
 #include "Base64.h"
+#include "StrToD.h"
 
 namespace libvariant {
 
@@ -266,7 +267,7 @@ namespace libvariant {
 				throw std::runtime_error(errorstr);
 			}
 			if (nodetype == FloatNode) {
-				action->Scalar(this, strtod(text.c_str(), 0), 0, 0);
+				action->Scalar(this, StrToD(text.c_str(), 0), 0, 0);
 			} else {
 				errno = 0;
 				intmax_t val = strtoll(text.c_str(), 0, 0);
-- 
2.43.0


From f898f22a3cee710692de103aa2ee67287720d07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:11 +0000
Subject: [PATCH 101/114] fix: refuse external entities in XML property lists

---
 src/XMLPLISTParser.cc | 34 +++++++++++++++++++++++++++++++---
 src/XMLPLISTParser.h  |  1 +
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 120d060..5cc7413 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -25,6 +25,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <libxml/parser.h>
+#include <libxml/hash.h>
 #include "XMLPLISTDefs.h"
 #include "Base64.h"
 #include "StrToD.h"
@@ -61,6 +62,31 @@ namespace libvariant {
 		}
 	}
 
+	static void FindExternalEntity(void *payload, void *data, const xmlChar *) {
+		switch (((xmlEntityPtr)payload)->etype) {
+		case XML_EXTERNAL_GENERAL_PARSED_ENTITY:
+		case XML_EXTERNAL_GENERAL_UNPARSED_ENTITY:
+		case XML_EXTERNAL_PARAMETER_ENTITY:
+			*(bool*)data = true;
+			break;
+		default:
+			break;
+		}
+	}
+
+	// A document must not be able to include other files or network resources.
+	void XMLPLISTParserImpl::CheckDocumentType() {
+		xmlDtdPtr dtd = (xmlDtdPtr)xmlTextReaderCurrentNode(reader);
+		bool external = false;
+		if (dtd && dtd->entities) { xmlHashScan((xmlHashTablePtr)dtd->entities, FindExternalEntity, &external); }
+		if (dtd && dtd->pentities) { xmlHashScan((xmlHashTablePtr)dtd->pentities, FindExternalEntity, &external); }
+		if (external) {
+			err = true;
+			errorstr = "libvariant XML PLIST does not allow external entities";
+			throw std::runtime_error(errorstr);
+		}
+	}
+
 	int XMLPLISTParserImpl::Run() {
 		while (!action_stack.empty()) {
 			if (closed) { return 1; }
@@ -106,6 +132,9 @@ namespace libvariant {
 					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 						loop = ProcessText();
 						break;
+					case XML_READER_TYPE_DOCUMENT_TYPE:
+						CheckDocumentType();
+						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
 					case XML_READER_TYPE_ENTITY_REFERENCE:
@@ -113,7 +142,6 @@ namespace libvariant {
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
 					case XML_READER_TYPE_COMMENT:
 					case XML_READER_TYPE_DOCUMENT:
-					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
 					case XML_READER_TYPE_XML_DECLARATION:
@@ -349,7 +377,7 @@ namespace libvariant {
    	{
 		InitXML();
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
-				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
+				XML_PARSE_NOENT|XML_PARSE_NOCDATA|XML_PARSE_NONET);
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
@@ -383,7 +411,7 @@ namespace libvariant {
 		xmlFreeTextReader(reader);
 		reader = 0;
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
-				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
+				XML_PARSE_NOENT|XML_PARSE_NOCDATA|XML_PARSE_NONET);
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 61c024a..dfb2fcf 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -60,6 +60,7 @@ namespace libvariant {
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
 		bool ProcessText();
+		void CheckDocumentType();
 		void FinishBlob(ParserActions *action);
 		bool EndElement(ParserActions *action, State_t nodetype);
 		void Close();
-- 
2.43.0


From 23f65d02bb3f2c895d82ef6e06aeea144f255151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:53 +0000
Subject: [PATCH 102/114] fix: refuse text that XML cannot represent when
 writing property lists

---
 src/XMLPLISTEmitter.cc | 25 +++++++++++++++++++++++--
 src/XMLPLISTEmitter.h  |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index a14bdf2..e671319 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -25,6 +25,7 @@
 #include <sstream>
 #include <iomanip>
 #include <limits>
+#include <libxml/chvalid.h>
 #include "XMLPLISTDefs.h"
 #include "Base64.h"
 
@@ -131,14 +132,34 @@ namespace libvariant {
 		CloseElement();
 	}
 
+	// Whether the text is made of characters that XML allows.
+	static bool IsXMLText(const std::string &v) {
+		const unsigned char *c = (const unsigned char*)v.data();
+		for (int left = v.length(), len; left > 0; left -= len, c += len) {
+			len = left;
+			int ch = xmlGetUTF8Char(c, &len);
+			if (ch < 0 || !xmlIsCharQ(ch)) { return false; }
+			// a longer encoding than necessary
+			if ((len == 2 && ch < 0x80) || (len == 3 && ch < 0x800) || (len == 4 && ch < 0x10000)) { return false; }
+		}
+		return true;
+	}
+
 	void XMLPLISTEmitterImpl::Emit(const char *v) {
+		Emit(std::string(v));
+	}
+
+	void XMLPLISTEmitterImpl::Emit(const std::string &v) {
+		if (!IsXMLText(v)) {
+			throw std::runtime_error("XMLPLISTEmitter: The text contains characters that XML does not permit.");
+		}
 		if (state.back() == EXPECT_MAP_KEY) {
 			StartElement(KEY_NAME, false);
-			WriteText(v);
+			WriteText(v.c_str());
 			CloseElement();
 		} else {
 			StartElement(STRING_NAME);
-			WriteText(v);
+			WriteText(v.c_str());
 			CloseElement();
 		}
 	}
diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index e30a127..ec992d8 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -60,6 +60,7 @@ namespace libvariant {
 		virtual void EmitTrue();
 		virtual void EmitFalse();
 		virtual void Emit(const char *v);
+		virtual void Emit(const std::string &v);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
 		virtual void Emit(double v);
-- 
2.43.0


From 8c12fc5ba3c9fc00cf126f44cf1720c3465bb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:49 +0000
Subject: [PATCH 103/114] fix: read bundle header lists followed by white space
 or a comment as lists

---
 src/BundleHdrParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 577fb42..9d46047 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -130,7 +130,8 @@ namespace libvariant {
 				{
 					char *list_context = 0;
 					int i = 0;
-					bool bar_at_end = (value.size() > 1 && value[value.size()-2] == '|');
+					size_t value_len = strlen(&value[0]);
+					bool bar_at_end = (value_len > 0 && value[value_len-1] == '|');
 					while (true) {
 						char *v = strtok_r((i == 0 ? &value[0] : 0), "|", &list_context);
 						if (!v) {
-- 
2.43.0


From 6a87d43d1f7f4f21e0876634f2d0b701c4bc8b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:39 +0000
Subject: [PATCH 104/114] fix: report the YAML emitter's styles as they were
 set

---
 src/YAMLEmitter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 1350c20..4ea7acf 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -161,11 +161,11 @@ namespace libvariant {
 	Variant YAMLEmitterImpl::Config::GetParam(ConfigKeys index) {
 		switch (index) {
 		case SCALAR_STYLE:
-			return scalar_style_str[index];
+			return scalar_style_str[default_scalar_style];
 		case MAP_STYLE:
-			return style_str[index];
+			return style_str[default_map_style];
 		case LIST_STYLE:
-			return style_str[index];
+			return style_str[default_list_style];
 		case IMPLICIT_DOCUMENT_BEGIN:
 			return implicit_begin_document;
 		case IMPLICIT_DOCUMENT_END:
-- 
2.43.0


From 802ec5d4701abfba2d884cba380927e7abe15bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:43 +0000
Subject: [PATCH 105/114] fix: let the JSON emitter's strict option be set and
 read like the others

---
 src/JSONEmitter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 7924f7a..ab1ff97 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -183,6 +183,7 @@ namespace libvariant {
 
 	Variant JSONEmitterImpl::GetParam(const std::string &key) {
 		if (key == "pretty") { return pretty; }
+		if (key == "strict") { return strict; }
 		if (key == "indent") { return num_indent; }
 		if (key == "precision") { return numeric_precision; }
 		return Variant::NullType;
@@ -191,6 +192,7 @@ namespace libvariant {
 	Variant JSONEmitterImpl::GetParams() {
 		Variant ret;
 		ret["pretty"] = pretty;
+		ret["strict"] = strict;
 		ret["indent"] = num_indent;
 		ret["precision"] = numeric_precision;
 		return ret;
@@ -200,6 +202,9 @@ namespace libvariant {
 		if (key == "pretty") {
 			pretty = value.AsBool();
 		}
+		if (key == "strict") {
+			strict = value.AsBool();
+		}
 		if (key == "indent") {
 			num_indent = value.AsUnsigned();
 		}
-- 
2.43.0


From 526a0b7758a7be3d35d28f241cab449e2f37aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:32:47 +0000
Subject: [PATCH 106/114] fix: apply indent and width set on a YAML emitter
 after its creation

---
 src/YAMLEmitter.cc | 18 ++++++++++++------
 src/YAMLEmitter.h  |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 4ea7acf..29bf54f 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -189,12 +189,7 @@ namespace libvariant {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
 		yaml_emitter_set_output(&emitter, WriteHandler, this);
-		if (conf.indent > 0) {
-			yaml_emitter_set_indent(&emitter, conf.indent);
-		}
-		if (conf.width > 0) {
-			yaml_emitter_set_width(&emitter, conf.width);
-		}
+		ApplyLayout();
 		try { EmitStreamStart(); }
 		catch (...) {
 			yaml_emitter_delete(&emitter);
@@ -404,10 +399,21 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::SetParam(const std::string &key, Variant value) {
 		conf.SetParam(key, value);
+		if (!closed) { ApplyLayout(); }
 	}
 
 	void YAMLEmitterImpl::SetParams(Variant params) {
 		conf.SetParams(params);
+		if (!closed) { ApplyLayout(); }
+	}
+
+	void YAMLEmitterImpl::ApplyLayout() {
+		if (conf.indent > 0) {
+			yaml_emitter_set_indent(&emitter, conf.indent);
+		}
+		if (conf.width > 0) {
+			yaml_emitter_set_width(&emitter, conf.width);
+		}
 	}
 
 	void YAMLEmitterImpl::EmitStreamStart() {
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index e3bd199..b8776ca 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -142,6 +142,7 @@ namespace libvariant {
 		static int WriteHandler(void *data, unsigned char *buffer, size_t size);
 		void HandleError();
 		void EmitStreamStart();
+		void ApplyLayout();
 		void Emit(yaml_event_t &event);
 
 		void CheckClosed() {
-- 
2.43.0


From 78735f9337eac43062e02dd77ece1f718435f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:56 +0000
Subject: [PATCH 107/114] fix: let the constructors of exceptions report a lack
 of memory

---
 include/Variant/Exceptions.h | 22 +++++++++++-----------
 src/Exceptions.cc            | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/Variant/Exceptions.h b/include/Variant/Exceptions.h
index da59c28..45bb346 100644
--- a/include/Variant/Exceptions.h
+++ b/include/Variant/Exceptions.h
@@ -29,55 +29,55 @@ namespace libvariant {
 	/// \brief Exception thrown when a key does not exist.
 	class KeyError : public std::runtime_error {
 	public:
-		KeyError(const std::string &key) throw();
+		KeyError(const std::string &key);
 	};
 
 	/// \brief Exception thrown when internal state is corrupt.
 	class UnknownTypeError : public std::runtime_error {
 	public:
-		UnknownTypeError(VariantDefines::Type_t type) throw();
+		UnknownTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when a function expects a specific type but the action type conflicts.
 	class UnexpectedTypeError : public std::runtime_error {
 	public:
-		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw();
-		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value) throw();
+		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value);
+		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value);
 	};
 
 	/// \brief Exception thrown when a function cannot convert the Variant to an acceptable type for the routine.
 	class UnableToConvertError : public std::runtime_error {
 	public:
-		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype) throw();
+		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype);
 	};
 
 	/// \brief Exception thrown when trying to index a type other than map or list.
 	class TypeNotIndexableError : public std::runtime_error {
 	public:
-		TypeNotIndexableError(VariantDefines::Type_t type) throw();
+		TypeNotIndexableError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when attempting a numeric operation on a non numeric type.
 	class NotNumericTypeError : public std::runtime_error {
 	public:
-		NotNumericTypeError(VariantDefines::Type_t type) throw();
+		NotNumericTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown from path functions
 	class BadPathError : public std::runtime_error {
 	public:
-		BadPathError(VariantDefines::Type_t type) throw();
-		BadPathError(const std::string &msg) throw();
+		BadPathError(VariantDefines::Type_t type);
+		BadPathError(const std::string &msg);
 	};
 
 	class InvalidReferenceError : public std::runtime_error {
 	public:
-		InvalidReferenceError(const std::string &msg) throw();
+		InvalidReferenceError(const std::string &msg);
 	};
 
 	class InvalidOperationError : public std::runtime_error {
 	public:
-		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw();
+		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname);
 	};
 
 	std::ostream &operator <<(std::ostream &os, VariantDefines::Type_t type);
diff --git a/src/Exceptions.cc b/src/Exceptions.cc
index 2ffe4c2..061548f 100644
--- a/src/Exceptions.cc
+++ b/src/Exceptions.cc
@@ -73,7 +73,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type) throw()
+	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(UnknownTypeErrorMessage(type))
    	{}
 
@@ -96,12 +96,12 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw()
+	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
    	{}
 
 	UnexpectedTypeError::UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected,
-		   	VariantDefines::Type_t value) throw()
+		   	VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
 	{}
 
@@ -114,7 +114,7 @@ namespace libvariant {
 	}
 
 	UnableToConvertError::UnableToConvertError(VariantDefines::Type_t sourcetype,
-		   	const std::string &targettype) throw()
+		   	const std::string &targettype)
 		: std::runtime_error(UnableToConvertErrorMessage(sourcetype, targettype))
    	{}
 
@@ -125,7 +125,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type) throw()
+	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type)
 		: std::runtime_error(TypeNotIndexableErrorMessage(type))
    	{}
 
@@ -136,7 +136,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type) throw()
+	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(NotNumericTypeErrorMessage(type))
 	{}
 
@@ -147,7 +147,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	KeyError::KeyError(const std::string &key) throw()
+	KeyError::KeyError(const std::string &key)
 		: std::runtime_error(KeyErrorMessage(key))
 	{}
 
@@ -165,11 +165,11 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	BadPathError::BadPathError(VariantDefines::Type_t type) throw()
+	BadPathError::BadPathError(VariantDefines::Type_t type)
 		: std::runtime_error(BadPathErrorMessage(type))
 	{}
 
-	BadPathError::BadPathError(const std::string &msg) throw()
+	BadPathError::BadPathError(const std::string &msg)
 		: std::runtime_error(BadPathErrorMessage(msg))
 	{}
 
@@ -180,7 +180,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidReferenceError::InvalidReferenceError(const std::string &msg) throw()
+	InvalidReferenceError::InvalidReferenceError(const std::string &msg)
 		: std::runtime_error(InvalidReferenceErrorMessage(msg))
 	{}
 
@@ -192,7 +192,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw()
+	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname)
 		: std::runtime_error(InvalidOperationErrorMessage(type, opname))
 	{}
 }
-- 
2.43.0


From 0ca3c585757510672a05a0a7fa28d543133abd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:54 +0000
Subject: [PATCH 108/114] fix: allocate the storage of a variant before giving
 up its old value

---
 src/Variant.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 45dfd61..0a49b65 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1128,9 +1128,9 @@ namespace libvariant {
 		}
 
 		void StringInit(Data *that, const std::string &s) {
+			shared_ptr<StringStorage> storage(new StringStorage(s));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = StringVTable();
-			shared_ptr<StringStorage> storage(new StringStorage(s));
 			that->s = &storage->str;
 			that->storage = storage;
 		}
@@ -1270,9 +1270,9 @@ namespace libvariant {
 		}
 
 		void ListInit(Data *that, const Variant::List &l) {
+			shared_ptr<ListStorage> storage(new ListStorage(l));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = ListVTable();
-			shared_ptr<ListStorage> storage(new ListStorage(l));
 			that->l = storage.get();
 			that->storage = storage;
 		}
@@ -1396,9 +1396,9 @@ namespace libvariant {
 		}
 
 		void MapInit(Data *that, const Variant::Map &m) {
+			shared_ptr<MapStorage> storage(new MapStorage(m));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = MapVTable();
-			shared_ptr<MapStorage> storage(new MapStorage(m));
 			that->m = storage.get();
 			that->storage = storage;
 		}
@@ -1462,9 +1462,9 @@ namespace libvariant {
 
 		void BlobInit(Data *that, BlobPtr blob) {
 			if (!blob) { blob = libvariant::Blob::CreateCopy("", 0); }
+			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = BlobVTable();
-			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			that->blob = &storage->blob;
 			that->storage = storage;
 		}
@@ -1679,11 +1679,13 @@ namespace libvariant {
 
 		void RefInit(Data *that, const Data *other) {
 			static const Ref ref_vtable;
+			// XXX: const cast.. double ICKY!
+			Data *ref = const_cast<Data*>(other);
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &ref_vtable;
-			// XXX: const cast.. double ICKY!
-			that->ref = const_cast<Data*>(other);
-			that->ref_data = that->ref->vtable->EnsureRef(that->ref);
+			that->ref = ref;
+			that->ref_data = ref_data;
 		}
 
 		//--------------------
@@ -1984,10 +1986,11 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
-			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			that->ref_data = ref_data;
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From 47ecdd0e8f7fb9a51669165552a2e8fc0a531b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:16 +0000
Subject: [PATCH 109/114] fix: release memory given to a blob that cannot be
 created

---
 src/Blob.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index 2410c15..14d5c6c 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -21,7 +21,16 @@ namespace libvariant {
 	}
 
 	BlobPtr Blob::Create(struct iovec *iov, unsigned iov_len, BlobFreeFunc ffunc, void *context) {
-		return BlobPtr(new Blob(iov, iov_len, ffunc, context));
+		Blob *blob = 0;
+		try { blob = new Blob(iov, iov_len, ffunc, context); }
+		catch (...) {
+			// The memory is ours already
+			for (unsigned i = 0; ffunc && i < iov_len; ++i) {
+				ffunc(iov[i].iov_base, context);
+			}
+			throw;
+		}
+		return BlobPtr(blob);
 	}
 
 	shared_ptr<Blob> Blob::CreateCopy(const void *ptr, unsigned len) {
@@ -48,7 +57,7 @@ namespace libvariant {
 			copied += iov[i].iov_len;
 		}
 		struct iovec v = { data, len };
-		return shared_ptr<Blob>(new Blob(&v, 1, MallocFree, 0));
+		return Create(&v, 1, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateFree(void *ptr, unsigned len) {
@@ -57,7 +66,7 @@ namespace libvariant {
 	}
 
 	BlobPtr Blob::CreateFree(struct iovec *iov, unsigned iov_len) {
-		return shared_ptr<Blob>(new Blob(iov, iov_len, MallocFree, 0));
+		return Create(iov, iov_len, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateReferenced(void *ptr, unsigned len) {
-- 
2.43.0


From e869ae178d8542955a77020d0d380754f2ca9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:16 +0000
Subject: [PATCH 110/114] fix: delete a YAML event before an action's error is
 recorded

---
 src/YAMLParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index bf488be..8d75806 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -161,8 +161,8 @@ namespace libvariant {
 				}
 			} catch (...) {
 				err = true;
-				errorstr = "Exception from action...";
 				yaml_event_delete(&event);
+				errorstr = "Exception from action...";
 				throw;
 			}
 			yaml_event_delete(&event);
-- 
2.43.0


From 27ef6b7dc034f2b5c0ed54c4c11463e367fc4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:40:16 +0000
Subject: [PATCH 111/114] fix: keep inside the list when a patch that ran out
 of memory is undone

---
 src/Extensions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 2c686ef..7180d71 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -547,6 +547,7 @@ namespace libvariant {
 			path.pop_back();
 			VariantRef r = path.empty() ? v : v.AtPath(path);
 			if (r.IsList()) {
+				if (elem.AsUnsigned() > r.Size()) { throw std::runtime_error("Unable to put a value back"); }
 				r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), value);
 			} else {
 				r.Set(elem.AsString(), value);
@@ -562,6 +563,7 @@ namespace libvariant {
 		path.pop_back();
 		VariantRef r = path.empty() ? v : v.AtPath(path);
 		if (r.IsList()) {
+			if (elem.AsUnsigned() >= r.Size()) { throw std::runtime_error("Unable to take a value out"); }
 			r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
 		} else {
 			r.Erase(elem.AsString());
-- 
2.43.0


From d9a942510fbf821fb266b8f09235f2212e6d407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:06 +0000
Subject: [PATCH 112/114] fix: report arithmetic with a blob as a conversion
 error, not as corrupt state

---
 src/Variant.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Variant.cc b/src/Variant.cc
index 0a49b65..ae8a3cf 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -82,6 +82,7 @@ namespace libvariant {
 			case Variant::StringType:
 			case Variant::ListType:
 			case Variant::MapType:
+			case Variant::BlobType:
 				throw UnableToConvertError(t2, "a numeric type.");
 			default:
 				throw UnknownTypeError(t2);
@@ -99,6 +100,7 @@ namespace libvariant {
 			case Variant::StringType:
 			case Variant::ListType:
 			case Variant::MapType:
+			case Variant::BlobType:
 				throw UnableToConvertError(t2, "a numeric type.");
 			default:
 				throw UnknownTypeError(t2);
@@ -116,6 +118,7 @@ namespace libvariant {
 			case Variant::StringType:
 			case Variant::ListType:
 			case Variant::MapType:
+			case Variant::BlobType:
 				throw UnableToConvertError(t2, "a numeric type.");
 			default:
 				throw UnknownTypeError(t2);
@@ -125,6 +128,7 @@ namespace libvariant {
 		case Variant::StringType:
 		case Variant::ListType:
 		case Variant::MapType:
+		case Variant::BlobType:
 			throw UnableToConvertError(t1, "a numeric type.");
 		default:
 			throw UnknownTypeError(t1);
-- 
2.43.0


From a5a13bda086daa6fbd3b3ef1fe6e2e3b15217bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:09 +0000
Subject: [PATCH 113/114] fix: grow the buffer of stream inputs as bytes arrive

---
 src/ParserInput.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index 5611884..2af98b6 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -20,6 +20,7 @@
  */
 
 #include <Variant/ParserInput.h>
+#include <algorithm>
 #include <stdexcept>
 #include <streambuf>
 #include <sstream>
@@ -55,17 +56,15 @@ namespace libvariant {
 			len = num;
 			return &buffer[offset];
 		}
-		if (len + offset > buffer.size()) {
-			if (len > buffer.size()) {
-				std::vector<char> newbuffer(len);
-				memmove(&newbuffer[0], &buffer[offset], num);
-				std::swap(newbuffer, buffer);
-			} else {
-				memmove(&buffer[0], &buffer[offset], num);
-			}
+		if (offset > 0 && len > buffer.size() - offset) {
+			memmove(&buffer[0], &buffer[offset], num);
 			offset = 0;
 		}
 		while (!eof && (num < len || num == 0)) {
+			if (num + offset == buffer.size()) {
+				// grow as the bytes arrive, there may be fewer than asked for
+				buffer.resize(std::min<size_t>(len, 2 * buffer.size() + 4096));
+			}
 			unsigned to_read = buffer.size() - num - offset;
 			unsigned num_read = Read(&buffer[num + offset], to_read);
 			if (num_read == 0) { eof = true; }
-- 
2.43.0


From c5b308f6d1e12d589af8bdf9fed9b6afcdc8df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:20:05 +0000
Subject: [PATCH 114/114] fix: a new JSON parser is Ok

---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 1550550..f29467e 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -203,7 +203,7 @@ namespace libvariant {
 	JSONParserImpl::Status_t JSONParserImpl::GetStatus() const { return status; }
 	bool JSONParserImpl::Done() const { return status == S_DONE; }
 	bool JSONParserImpl::Error() const { return status == S_ERROR; }
-	bool JSONParserImpl::Ok() const { return status == S_OK; }
+	bool JSONParserImpl::Ok() const { return status != S_ERROR && status != S_DONE; }
 
 	std::string JSONParserImpl::ErrorStr() const { return errorstr; }
 
-- 
2.43.0


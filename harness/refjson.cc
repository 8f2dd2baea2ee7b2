#include "refjson.h"
#include <stdlib.h>
#include <math.h>
#include <errno.h>
#include <string.h>
bool RefJson::ws() {
	for (;;) {
		while (p < t->size() && strchr(" \t\r\n", (*t)[p]) && (*t)[p]) ++p;
		if (comments && p + 1 < t->size() && (*t)[p] == '/') {
			if ((*t)[p + 1] == '*') {
				size_t e = t->find("*/", p + 2);
				if (e == std::string::npos) return bad("open comment");
				for (size_t k = p; k < e; ++k) if ((unsigned char)(*t)[k] < 0x20 && !strchr("\t\r\n", (*t)[k])) odd_comment = true;
				p = e + 2;
				continue;
			}
		}
		return true;
	}
}
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool RefJson::str(std::string &s) {
	++p;
	for (;;) {
		if (p >= t->size()) return bad("open string");
		unsigned char c = (*t)[p];
		if (c == '"') { ++p; break; }
		if (c < 0x20) return bad("control character in string");
		if (c != '\\') { s += (char)c; ++p; continue; }
		if (++p >= t->size()) return bad("open escape");
		c = (*t)[p++];
		switch (c) {
		case '"': case '\\': case '/': s += (char)c; break;
		case 'b': s += '\b'; break;
		case 'f': s += '\f'; break;
		case 'n': s += '\n'; break;
		case 'r': s += '\r'; break;
		case 't': s += '\t'; break;
		case 'u': {
			auto four = [&](uint32_t &v) {
				v = 0;
				for (int k = 0; k < 4; ++k) {
					if (p >= t->size()) return false;
					int h = hexv((unsigned char)(*t)[p]);
					if (h < 0) return false;
					v = v * 16 + h; ++p;
				}
				return true;
			};
			uint32_t v;
			if (!four(v)) return bad("bad \\u");
			if (v >= 0xd800 && v < 0xdc00) {
				if (p + 1 < t->size() && (*t)[p] == '\\' && (*t)[p + 1] == 'u') {
					size_t save = p;
					uint32_t w;
					p += 2;
					if (!four(w)) return bad("bad \\u");
					if (w >= 0xdc00 && w < 0xe000) v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
					else { lone_surrogate = true; p = save; }
				} else lone_surrogate = true;
			} else if (v >= 0xdc00 && v < 0xe000) lone_surrogate = true;
			if (v == 0) nul = true;
			utf8_put(s, v);
			break;
		}
		default: return bad("bad escape");
		}
	}
	if (!lone_surrogate && !utf8_valid(s)) bad_utf8 = true;
	return true;
}
bool RefJson::num(Val &v) {
	size_t b = p;
	auto digit = [&]() { return p < t->size() && (*t)[p] >= '0' && (*t)[p] <= '9'; };
	if (p < t->size() && (*t)[p] == '-') ++p;
	if (!digit()) return bad("bad number");
	if ((*t)[p] == '0') ++p; else while (digit()) ++p;
	bool flt = false;
	if (p < t->size() && (*t)[p] == '.') { flt = true; ++p; if (!digit()) { if (!lenient) return bad("bad fraction"); dot_end = true; } while (digit()) ++p; }
	if (p < t->size() && ((*t)[p] == 'e' || (*t)[p] == 'E')) {
		flt = true; ++p;
		if (p < t->size() && ((*t)[p] == '+' || (*t)[p] == '-')) ++p;
		if (!digit()) return bad("bad exponent");
		while (digit()) ++p;
	}
	std::string s = t->substr(b, p - b);
	if (flt) { v = Val::real(strtod(s.c_str(), 0)); if (isinf(v.d)) huge = true; return true; }
	errno = 0;
	if (s[0] == '-') {
		long long x = strtoll(s.c_str(), 0, 10);
		if (errno == ERANGE) bigint = true;
		v = Val::integer(x);
	} else {
		unsigned long long x = strtoull(s.c_str(), 0, 10);
		if (errno == ERANGE) bigint = true;
		v = x <= (unsigned long long)INT64_MAX ? Val::integer((int64_t)x) : Val::uinteger(x);
	}
	return true;
}
bool RefJson::val(Val &v, unsigned depth) {
	if (depth > max_depth) max_depth = depth;
	if (p >= t->size()) return bad("end of text");
	char c = (*t)[p];
	if (c == '{') {
		v = Val::map();
		++p;
		if (!ws()) return false;
		if (p < t->size() && (*t)[p] == '}') { ++p; return true; }
		for (;;) {
			if (!ws()) return false;
			if (p >= t->size() || (*t)[p] != '"') return bad("key expected");
			std::string k;
			if (!str(k)) return false;
			if (!ws()) return false;
			if (p >= t->size() || (*t)[p] != ':') return bad("colon expected");
			++p;
			if (!ws()) return false;
			Val x;
			if (!val(x, depth + 1)) return false;
			if (v.m.count(k)) dupkey = true;
			v.m[k] = x;
			if (!ws()) return false;
			if (p >= t->size()) return bad("end of text");
			if ((*t)[p] == ',') { ++p; continue; }
			if ((*t)[p] == '}') { ++p; return true; }
			return bad("comma or brace expected");
		}
	}
	if (c == '[') {
		v = Val::list();
		++p;
		if (!ws()) return false;
		if (p < t->size() && (*t)[p] == ']') { ++p; return true; }
		for (;;) {
			if (!ws()) return false;
			Val x;
			if (!val(x, depth + 1)) return false;
			v.l.push_back(x);
			if (!ws()) return false;
			if (p >= t->size()) return bad("end of text");
			if ((*t)[p] == ',') { ++p; continue; }
			if ((*t)[p] == ']') { ++p; return true; }
			return bad("comma or bracket expected");
		}
	}
	if (c == '"') { v = Val::str(""); return str(v.s); }
	if (t->compare(p, 4, "true") == 0) { p += 4; v = Val::boolean(true); return true; }
	if (t->compare(p, 5, "false") == 0) { p += 5; v = Val::boolean(false); return true; }
	if (t->compare(p, 4, "null") == 0) { p += 4; v = Val::null(); return true; }
	return num(v);
}
bool RefJson::parse(const std::string &text) {
	t = &text; p = 0;
	ok = false;
	if (!ws()) return false;
	if (container_root && (p >= text.size() || (text[p] != '{' && text[p] != '['))) return bad("root must be a container");
	if (!val(value, 0)) return false;
	used = p;
	ok = true;
	return true;
}

static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string ref_base64(const std::string &b) {
	std::string r;
	for (size_t i = 0; i < b.size(); i += 3) {
		unsigned v = (unsigned char)b[i] << 16, n = 1;
		if (i + 1 < b.size()) { v |= (unsigned char)b[i + 1] << 8; ++n; }
		if (i + 2 < b.size()) { v |= (unsigned char)b[i + 2]; ++n; }
		r += B64[v >> 18]; r += B64[(v >> 12) & 63];
		r += n > 1 ? B64[(v >> 6) & 63] : '=';
		r += n > 2 ? B64[v & 63] : '=';
	}
	return r;
}
bool ref_unbase64(const std::string &t, std::string &out) {
	out.clear();
	unsigned acc = 0, bits = 0;
	for (unsigned char c : t) {
		const char *q = c ? strchr(B64, c) : 0;
		if (!q) continue;
		acc = acc << 6 | (unsigned)(q - B64);
		bits += 6;
		if (bits >= 8) { bits -= 8; out += (char)(acc >> bits & 0xff); acc &= (1u << bits) - 1; }
	}
	return true;
}

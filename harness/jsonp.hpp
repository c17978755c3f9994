// A strict JSON parser (strings, arrays, objects, null).
#ifndef VERIF_JSONP
#define VERIF_JSONP
#include "h.hpp"
namespace vf {
struct J { char t; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J> > o; J() : t(0) {} };
struct JErr { std::string m; JErr(const std::string& x) : m(x) {} };
struct JP {                                                // RFC 8259, strings and structures only plus literals
    const std::string& s; size_t i;
    JP(const std::string& x) : s(x), i(0) {}
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t')) ++i; }
    char get() { if (i >= s.size()) throw JErr("unexpected end"); return s[i++]; }
    unsigned hex() { unsigned v = 0; for (int k = 0; k < 4; ++k) { char x = get(); v = v * 16 + (x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : throw JErr("bad \\u escape")); } return v; }
    std::string string_() {
        if (get() != '"') throw JErr("string expected at " + str(i)); std::string r;
        for (;;) {
            char x = get(); if (x == '"') break;
            if ((unsigned char)x < 0x20) throw JErr("control character " + str((int)x) + " in a string");
            if (x != '\\') { r += x; continue; }
            x = get();
            switch (x) { case '"': case '\\': case '/': r += x; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'u': { unsigned v = hex(); if (v >= 0xD800 && v < 0xDC00) { if (get() != '\\' || get() != 'u') throw JErr("lone surrogate"); unsigned w = hex(); if (w < 0xDC00 || w > 0xDFFF) throw JErr("lone surrogate"); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); } else if (v >= 0xDC00 && v < 0xE000) throw JErr("lone surrogate"); r += utf8(v); break; }
                default: throw JErr("bad escape"); }
        }
        std::vector<uint32_t> d; if (!decode(r, d)) throw JErr("not UTF-8");
        return r;
    }
    J value(int depth) {
        if (depth > 50) throw JErr("too deep"); ws(); J v; if (i >= s.size()) throw JErr("value expected");
        if (s[i] == '"') { v.t = 's'; v.s = string_(); }
        else if (s[i] == '[') { ++i; v.t = 'a'; ws(); if (i < s.size() && s[i] == ']') { ++i; return v; } for (;;) { v.a.push_back(value(depth + 1)); ws(); char x = get(); if (x == ']') break; if (x != ',') throw JErr(", or ] expected at " + str(i)); } }
        else if (s[i] == '{') { ++i; v.t = 'o'; ws(); if (i < s.size() && s[i] == '}') { ++i; return v; } for (;;) { ws(); std::string k = string_(); ws(); if (get() != ':') throw JErr(": expected"); v.o.push_back(std::make_pair(k, value(depth + 1))); ws(); char x = get(); if (x == '}') break; if (x != ',') throw JErr(", or } expected at " + str(i)); } }
        else if (s.compare(i, 4, "null") == 0) { v.t = 'n'; i += 4; }
        else throw JErr("unexpected character at " + str(i));
        return v;
    }
    J all() { J v = value(0); ws(); if (i != s.size()) throw JErr("text after the document"); return v; }
};
inline std::string show(const J& v) {
    if (v.t == 'n') return "null"; if (v.t == 's') return js(v.s);
    std::string r; if (v.t == 'a') { for (size_t i = 0; i < v.a.size(); ++i) r += (i ? "," : "") + show(v.a[i]); return "[" + r + "]"; }
    std::map<std::string, std::string> m; for (size_t i = 0; i < v.o.size(); ++i) m[v.o[i].first] += show(v.o[i].second); for (std::map<std::string, std::string>::iterator k = m.begin(); k != m.end(); ++k) r += (r.empty() ? "" : ",") + js(k->first) + ":" + k->second; return "{" + r + "}";
}
}
#endif

// Small regular expressions with their own backtracking matcher (Perl order of alternatives):
// an oracle for rule files that is independent of the regular expression library in use.
#ifndef VERIF_RX_HPP
#define VERIF_RX_HPP
#include "h.hpp"
#include <memory>
namespace rx {
using vf::Rng;
typedef std::vector<uint32_t> Txt;
struct Node {
    enum T { LIT, CLS, DOT, DIGIT, SPACE, LETTER, SEQ, ALT, REP, LOOK, NLOOK, EMPTY, WORDB } t;
    uint32_t c; std::vector<uint32_t> set; bool neg; int lo, hi; bool lazy;
    std::vector<std::shared_ptr<Node> > k;
    Node(T tt) : t(tt), c(0), neg(false), lo(0), hi(0), lazy(false) {}
};
typedef std::shared_ptr<Node> P;
inline P mk(Node::T t) { return P(new Node(t)); }
inline bool isL(uint32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == 0x105 || c == 0xE9 || c == 0x416 || c == 0x4E2D; }
inline const std::vector<uint32_t>& alphabet() {
    static std::vector<uint32_t> a;
    if (a.empty()) { static const uint32_t x[] = {'a','b','c','a','b','A','B','1','2','.','-',',',' ',' ','\n','\t',0x105,0xE9,0x416,0x4E2D,0x1F600,'@','#'}; a.assign(x, x + sizeof(x) / sizeof(x[0])); }
    return a;
}
inline bool one(const Node& n, uint32_t c) {
    switch (n.t) {
        case Node::LIT: return c == n.c;
        case Node::CLS: { bool in = false; for (size_t i = 0; i < n.set.size(); ++i) if (n.set[i] == c) in = true; return in != n.neg; }
        case Node::DOT: return c != '\n';
        case Node::DIGIT: return (c >= '0' && c <= '9') != n.neg;
        case Node::SPACE: return c == ' ' || c == '\n' || c == '\t';
        case Node::LETTER: return isL(c) != n.neg;
        default: return false;
    }
}
inline bool single(const Node& n) { return n.t <= Node::LETTER; }
// calls cont with every end position in the order a backtracking matcher tries them; stops when cont says so
typedef std::function<bool(size_t)> Cont;
inline bool m(const Node& n, const Txt& s, size_t p, const Cont& cont);
inline bool isW(uint32_t c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
inline bool wordb(const Txt& s, size_t p) { return (p > 0 && isW(s[p - 1])) != (p < s.size() && isW(s[p])); }
inline bool seq(const Node& n, size_t i, const Txt& s, size_t p, const Cont& cont) {
    if (i == n.k.size()) return cont(p);
    return m(*n.k[i], s, p, [&](size_t e) { return seq(n, i + 1, s, e, cont); });
}
inline bool rep(const Node& n, int done, const Txt& s, size_t p, const Cont& cont) {
    bool may = done >= n.lo, more = n.hi < 0 || done < n.hi;
    if (n.lazy) { if (may && cont(p)) return true; }
    if (more && m(*n.k[0], s, p, [&](size_t e) { return (e > p || n.hi >= 0) && rep(n, done + 1, s, e, cont); })) return true;
    if (!n.lazy && may) return cont(p);
    return false;
}
inline bool m(const Node& n, const Txt& s, size_t p, const Cont& cont) {
    if (single(n)) return p < s.size() && one(n, s[p]) && cont(p + 1);
    switch (n.t) {
        case Node::EMPTY: return cont(p);
        case Node::WORDB: return wordb(s, p) && cont(p);
        case Node::SEQ: return seq(n, 0, s, p, cont);
        case Node::ALT: for (size_t i = 0; i < n.k.size(); ++i) if (m(*n.k[i], s, p, cont)) return true; return false;
        case Node::REP: return rep(n, 0, s, p, cont);
        case Node::LOOK: return m(*n.k[0], s, p, [](size_t) { return true; }) && cont(p);
        case Node::NLOOK: return !m(*n.k[0], s, p, [](size_t) { return true; }) && cont(p);
        default: return false;
    }
}
// end of the first match starting at p, or -1
inline long match(const Node& n, const Txt& s, size_t p) { long e = -1; m(n, s, p, [&](size_t x) { e = (long)x; return true; }); return e; }

inline P lit(Rng& r, bool specials) {
    P n = mk(Node::LIT);
    do n->c = r.pick(alphabet()); while (n->c == '\n' || n->c == '\t' || (!specials && (n->c == '@' || n->c == '#')));
    return n;
}
inline P atom(Rng& r, bool specials) {
    switch (r.range(0, 9)) {
        case 0: case 1: { P n = mk(Node::CLS); int k = r.range(1, 4); n->neg = r.chance(15);
            for (int i = 0; i < k; ++i) { static const uint32_t x[] = {'a','b','c','A','B','1','2',0x105,0xE9,0x416}; n->set.push_back(x[r.below(n->neg ? 7 : 10)]); } return n; }   // (the PCRE in use misreads some negated classes of wide characters)
        case 2: { P n = mk(Node::DIGIT); n->neg = r.chance(10); return n; }
        case 3: return mk(Node::SPACE);
        case 4: { P n = mk(Node::LETTER); n->neg = r.chance(15); return n; }
        case 5: if (r.chance(30)) return mk(Node::DOT);   // fall through
        default: return lit(r, specials);
    }
}
inline P elem(Rng& r, int depth, bool specials) {
    P a;
    if (depth > 0 && r.chance(25)) {
        a = mk(Node::ALT); int k = r.range(1, 3);
        for (int i = 0; i < k; ++i) { P s = mk(Node::SEQ); int l = r.range(1, 3); for (int j = 0; j < l; ++j) s->k.push_back(r.chance(20) ? elem(r, depth - 1, specials) : atom(r, specials)); a->k.push_back(s); }
        if (r.chance(75)) return a;
        P q = mk(Node::REP); q->k.push_back(a); q->lo = r.range(0, 1); q->hi = r.range(1, 2); return q;
    }
    a = atom(r, specials);
    int x = r.range(0, 11);
    if (x > 4) return a;
    P q = mk(Node::REP); q->k.push_back(a);
    if (x == 0) { q->lo = 0; q->hi = -1; } else if (x == 1 || x == 2) { q->lo = 1; q->hi = -1; } else if (x == 3) { q->lo = 0; q->hi = 1; }
    else { q->lo = r.range(1, 2); q->hi = q->lo + r.range(0, 2); }
    if (r.chance(8)) q->lazy = true;
    return q;
}
inline P gen(Rng& r, bool specials) {
    P s = mk(Node::SEQ); int k = r.range(1, 4);
    for (int i = 0; i < k; ++i) s->k.push_back(elem(r, 2, specials));
    if (r.chance(15)) { P l = mk(r.chance(50) ? Node::LOOK : Node::NLOOK); l->k.push_back(atom(r, specials)); s->k.push_back(l); }
    return s;
}
// pieces: a list of printed parts between which insignificant blanks may be put
struct Printer {
    bool escapeBlank, escapeHashAt;     // rule files drop unescaped blanks, and @ and # are special there
    std::vector<std::string> out;
    Printer(bool b) : escapeBlank(b), escapeHashAt(b) {}
    void put(const Node& n) {
        switch (n.t) {
            case Node::LIT: {
                std::string s = vf::utf8(n.c);
                if (n.c == '.' || (escapeHashAt && (n.c == '@' || n.c == '#')) || (escapeBlank && n.c == ' ')) s = "\\" + s;
                out.push_back(s); break; }
            case Node::CLS: { std::string s = n.neg ? "[^" : "["; for (size_t i = 0; i < n.set.size(); ++i) s += vf::utf8(n.set[i]); out.push_back(s + "]"); break; }
            case Node::DOT: out.push_back("."); break;
            case Node::DIGIT: out.push_back(n.neg ? "\\D" : "\\d"); break;
            case Node::SPACE: out.push_back("\\s"); break;
            case Node::LETTER: out.push_back(n.neg ? "\\P{L}" : "\\p{L}"); break;
            case Node::SEQ: for (size_t i = 0; i < n.k.size(); ++i) put(*n.k[i]); break;
            case Node::ALT: out.push_back("(?:"); for (size_t i = 0; i < n.k.size(); ++i) { if (i) out.push_back("|"); put(*n.k[i]); } out.push_back(")"); break;
            case Node::REP: {
                put(*n.k[0]);
                std::string q = n.hi < 0 ? (n.lo ? "+" : "*") : (n.lo == 0 && n.hi == 1) ? "?" : n.lo == n.hi ? "{" + vf::str(n.lo) + "}" : "{" + vf::str(n.lo) + "," + vf::str(n.hi) + "}";
                if (n.lazy) q += "?";
                out.back() += q; break; }
            case Node::LOOK: case Node::NLOOK: { out.push_back(n.t == Node::LOOK ? "(?=" : "(?!"); put(*n.k[0]); out.push_back(")"); break; }
            case Node::WORDB: out.push_back("\\b"); break;
            case Node::EMPTY: break;
        }
    }
};
inline std::string show(const Node& n, bool rulefile) { Printer p(rulefile); p.put(n); std::string s; for (size_t i = 0; i < p.out.size(); ++i) s += p.out[i]; return s; }
inline Txt text(Rng& r, int mx) {
    Txt t; int n = r.size(mx);
    uint32_t last = 'a';
    for (int i = 0; i < n; ++i) { if (!r.chance(35)) last = r.pick(alphabet()); t.push_back(last); }
    return t;
}
}
#endif

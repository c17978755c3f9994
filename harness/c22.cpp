// C22: the chart parser (context-free closure) and gobio, its unification grammars, against an independent closure of the rules as written.
#include "h.hpp"
#include <cmath>
#include <cstring>
#include <fstream>
#include "lattice.hpp"
#include "agenda.hpp"
#include "agenda_parser.tpl"
#include "av_ai_converter.hpp"
#include "chart.tpl"
#include "limit_checker.hpp"
#include "registrar.tpl"
#include "simple_cfg_combinator.tpl"
#include "gobio.hpp"
namespace vf {
typedef Lattice::EdgeDescriptor Edge;
static std::string tmp() { static std::string t = std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/c22-" + str(getpid()) + ".g"; return t; }
static LayerTagCollection lt(Lattice& l, const char* a, const char* b = 0) { std::list<std::string> x; x.push_back(a); if (b) x.push_back(b); return l.getLayerTagManager().createTagCollection(x); }

static void near(Ctx& c, double a, double b, const std::string& k, const std::string& w) { c.expect(fabs(a - b) <= 1e-6 * (1 + fabs(b)), k, w + ": score " + str(a) + ", want " + str(b)); }
// ---- values and expressions of the rule language
struct V {
    char t; long n; std::string s;                                  // F false, A any, I number, S symbol
    V(char c = 'F') : t(c), n(0) {} V(char c, long k) : t(c), n(k) {} V(char c, const std::string& x) : t(c), n(0), s(x) {}
    bool operator==(const V& o) const { return t == o.t && n == o.n && s == o.s; }
    bool operator<(const V& o) const { return t != o.t ? t < o.t : n != o.n ? n < o.n : s < o.s; }
    std::string text() const { return t == 'F' ? "fail" : t == 'A' ? "nil" : t == 'I' ? str(n) : s; }
};
typedef std::map<std::string, V> AV;
static V constant(const std::string& s) { if (s == "any" || s == "nil") return V('A'); if (s == "fail" || s == "false" || s == "empty") return V('F'); return V('S', s); }
enum Op { IMPL, OR, AND, UEQ, NE, EQ, UASS, ASS, HOOK, ADD, TRUEOF, CONST, NUM, LATTR, SATTR, SCORE };
struct X { Op op; std::string s; long n; int slot; std::vector<X> k; X() : op(CONST), n(0), slot(-1) {} };
static const AV NOAV;
struct Frame { AV lhs; std::vector<const AV*> rhs; double score; bool odd; };
static V get(const AV& a, const std::string& k) { AV::const_iterator i = a.find(k); return i == a.end() ? V() : i->second; }
static V ev(const X& x, Frame& f) {
    switch (x.op) {
        case CONST: return constant(x.s);
        case NUM: return V('I', x.n);
        case LATTR: return get(f.lhs, x.s);
        case SATTR: return f.rhs[x.slot] ? get(*f.rhs[x.slot], x.s) : V();
        case AND: { V a = ev(x.k[0], f); return a.t == 'F' ? a : ev(x.k[1], f); }
        case OR: { V a = ev(x.k[0], f); return a.t != 'F' ? a : ev(x.k[1], f); }
        case IMPL: { V a = ev(x.k[0], f); if (x.k.size() == 3) return a.t != 'F' ? ev(x.k[1], f) : ev(x.k[2], f); return a.t == 'F' ? V('A') : ev(x.k[1], f); }
        case EQ: { V a = ev(x.k[0], f), b = ev(x.k[1], f); return a == b ? V('A') : V(); }
        case NE: { V a = ev(x.k[0], f), b = ev(x.k[1], f); return a == b ? V() : V('A'); }
        case UEQ: { V a = ev(x.k[0], f), b = ev(x.k[1], f); return a == b || a.t == 'A' ? b : b.t == 'A' ? a : V(); }
        case ASS: { V a = ev(x.k[0], f); f.lhs[x.s] = a; return a; }
        case UASS: { V a = ev(x.k[0], f), v = get(f.lhs, x.s); if (v == a) return a; if (v.t == 'A') { f.lhs[x.s] = a; return a; } return a.t == 'A' ? v : V(); }
        case HOOK: { V a = ev(x.k[0], f), b = ev(x.k[1], f); if (a.t != 'I' || b.t != 'I') return V(); if ((a.n & b.n & 255) != 0) return V(); if (a.n > 255 || b.n > 255) f.odd = true; return V('I', a.n | b.n); }
        case ADD: { V a = ev(x.k[0], f), b = ev(x.k[1], f); if (a.t != 'I' || b.t != 'I' || a.n < 0 || b.n < 0) { f.odd = true; return V(); } return V('I', a.n + b.n); }
        case TRUEOF: ev(x.k[0], f); return V('A');
        case SCORE: f.score = x.n / 2.0; return V('A');
    }
    return V();
}
struct Item { std::vector<std::vector<std::string> > alts; bool opt, star; size_t slots; };
struct Rule { std::string lhs; std::vector<Item> items; bool has; X expr; std::vector<std::string> slotname; };
static std::string print(const X& x, const Rule& r, int prec) {
    static const int lev[] = {1, 3, 4, 5, 6, 7, 8, 9, 10, 11}; static const char* op[] = {" ==> ", " ; ", ", ", " == ", " != ", " = ", " :== ", " := ", " & ", " + "};
    switch (x.op) {
        case CONST: return x.s;
        case NUM: return str(x.n);
        case LATTR: return x.s;
        case SATTR: { std::string n = r.slotname[x.slot]; int k = 0, tot = 0; for (size_t i = 0; i < r.slotname.size(); ++i) if (r.slotname[i] == n) { if ((int)i < x.slot) ++k; ++tot; } return n + (tot > 1 && (k || x.n) ? "[" + str(k) + "]" : "") + "." + x.s; }
        case TRUEOF: return "{ " + print(x.k[0], r, 0) + " }";
        case SCORE: { std::string s = x.n % 2 ? str(x.n / 2.0) : str(x.n / 2) + (x.n % 4 ? "" : ".0"); return prec > 4 ? "(setscore " + s + ")" : "setscore " + s; }
        default: break;
    }
    int l = lev[x.op]; std::string s;
    if (x.op == ASS || x.op == UASS) { s = x.s + op[x.op] + print(x.k[0], r, l + 1); return prec > 4 ? "(" + s + ")" : s; }
    if (x.op == IMPL) s = print(x.k[0], r, 2) + " ==> " + print(x.k[1], r, 3) + (x.k.size() == 3 ? " :: " + print(x.k[2], r, 3) : "");
    else { int a = l + 1, b = x.op == AND || x.op == OR || x.op == ADD ? (x.op == ADD ? l + 1 : l) : l + 1; s = print(x.k[0], r, x.op == ADD ? l : a) + op[x.op] + print(x.k[1], r, b); }
    return l < prec ? "(" + s + ")" : s;
}
static std::string print(const Rule& r, Rng& g) {
    std::string s = r.lhs + " =";
    for (size_t i = 0; i < r.items.size(); ++i) {
        const Item& t = r.items[i]; s += " ";
        if (t.alts.size() == 1 && t.alts[0].size() == 1) s += t.alts[0][0] + (t.star ? "*" : "");
        else { s += "("; for (size_t a = 0; a < t.alts.size(); ++a) { if (a) s += " | "; for (size_t k = 0; k < t.alts[a].size(); ++k) s += (k ? " " : "") + t.alts[a][k]; } s += ")"; }
        if (t.opt) s += "?";
    }
    s += "\n"; if (r.has) s += "\t" + print(r.expr, r, 0) + "\n"; if (g.chance(20)) s += "\n"; return s + "\n";
}
// the alternatives of a rule: for every slot the symbol in it, or none
struct Var { int rule, star; std::vector<std::string> sym; };
static void expand(const Rule& r, int ix, std::vector<Var>& out) {
    std::vector<Var> v(1); v[0].rule = ix; v[0].star = -1; size_t pos = 0;
    for (size_t i = 0; i < r.items.size(); ++i) {
        const Item& t = r.items[i]; std::vector<Var> n;
        for (size_t k = 0; k < v.size(); ++k) {
            if (t.opt) { Var w = v[k]; w.sym.resize(pos + t.slots); n.push_back(w); }
            for (size_t a = 0; a < t.alts.size(); ++a) { Var w = v[k]; w.sym.insert(w.sym.end(), t.alts[a].begin(), t.alts[a].end()); w.sym.resize(pos + t.slots); if (t.star) w.star = pos; n.push_back(w); }
        }
        v = n; pos += t.slots;
    }
    for (size_t k = 0; k < v.size(); ++k) { bool any = false; for (size_t i = 0; i < v[k].sym.size(); ++i) any = any || !v[k].sym[i].empty(); if (any) out.push_back(v[k]); }
}

// ---- random grammars
static const char* TERM[] = {"a", "b", "c", "d"}; static const char* NONT[] = {"x", "y", "z", "n"}; static const char* ATTR[] = {"P", "Q", "Rod"}; static const char* VAL[] = {"m", "ż", "f", "any", "false"};
static X gen(Rng& r, const Rule& u, int d, bool unary, bool cond) {
    X x; std::vector<int> refs; for (size_t i = 0; i < u.slotname.size(); ++i) if (!u.slotname[i].empty()) refs.push_back(i);
    int k = r.below(d <= 0 ? 6 : 20);
    if (cond && d > 0 && k < 6) k = 6 + r.below(14);
    if (k < 3) { x.op = SATTR; x.slot = r.pick(refs); x.s = ATTR[r.below(3)]; x.n = r.below(2); return x; }
    if (k == 3) { x.op = LATTR; x.s = ATTR[r.below(3)]; return x; }
    if (k == 4) { x.op = CONST; x.s = VAL[r.below(5)]; return x; }
    if (k == 5) { x.op = NUM; x.n = 1 + r.below(4); return x; }
    Op o[] = {AND, AND, AND, OR, UEQ, UEQ, NE, EQ, EQ, UASS, ASS, ASS, TRUEOF, IMPL}; x.op = o[k - 6];
    if (r.chance(4)) x.op = HOOK; if (r.chance(3) && !unary) x.op = ADD; if (r.chance(6)) { x.op = SCORE; x.n = r.range(-6, 6); return x; }
    if (x.op == ASS || x.op == UASS) { x.s = ATTR[r.below(3)]; x.k.push_back(gen(r, u, r.chance(70) ? 0 : d - 1, unary, false)); return x; }
    bool lg = x.op == AND || x.op == OR || x.op == IMPL;
    int n = x.op == TRUEOF ? 1 : x.op == IMPL && r.chance(40) ? 3 : 2;
    for (int i = 0; i < n; ++i) x.k.push_back(gen(r, u, lg || x.op == TRUEOF ? d - 1 : r.chance(80) ? 0 : d - 1, unary, lg || x.op == TRUEOF));
    return x;
}
static Rule rule(Rng& r, const std::vector<std::string>& syms) {
    Rule u; u.lhs = NONT[r.below(4)]; int n = r.chance(25) ? 1 : r.chance(60) ? 2 : r.range(3, 5); bool star = false;
    for (int i = 0; i < n; ++i) {
        Item t; t.opt = n > 1 && r.chance(12); t.star = false;
        if (r.chance(14)) { int a = r.range(2, 3); for (int k = 0; k < a; ++k) { std::vector<std::string> s; int m = r.chance(70) ? 1 : 2; for (int z = 0; z < m; ++z) s.push_back(r.pick(syms)); t.alts.push_back(s); } }
        else { t.alts.push_back(std::vector<std::string>(1, r.pick(syms))); if (!star && r.chance(30)) star = t.star = true; }
        t.slots = 0; for (size_t a = 0; a < t.alts.size(); ++a) t.slots = std::max(t.slots, t.alts[a].size());
        u.items.push_back(t);
        // what the slots are called in the expression: the symbols of the first alternative that is long enough
        for (size_t z = 0; z < t.slots; ++z) u.slotname.push_back(t.alts.size() == 1 ? t.alts[0][z] : "");
    }
    // a name used in a group as well would be ambiguous: leave such slots unnamed, unless the group is the only place
    std::map<std::string, int> in, out; for (size_t i = 0; i < u.items.size(); ++i) { std::set<std::string> seen; for (size_t a = 0; a < u.items[i].alts.size(); ++a) for (size_t z = 0; z < u.items[i].alts[a].size(); ++z) (u.items[i].alts.size() > 1 ? in : out)[u.items[i].alts[a][z]]++; }
    size_t p = 0; for (size_t i = 0; i < u.items.size(); ++i) { if (u.items[i].alts.size() > 1) for (size_t a = 0; a < u.items[i].alts.size(); ++a) for (size_t z = 0; z < u.items[i].alts[a].size(); ++z) { const std::string& s = u.items[i].alts[a][z]; if (in[s] == 1 && !out.count(s) && u.slotname[p + z].empty()) u.slotname[p + z] = s; } p += u.items[i].slots; }
    for (size_t i = 0; i < u.slotname.size(); ++i) if (in.count(u.slotname[i]) && out.count(u.slotname[i])) u.slotname[i] = "";
    bool named = false; for (size_t i = 0; i < u.slotname.size(); ++i) named = named || !u.slotname[i].empty();
    u.has = named && r.chance(70); if (u.has) u.expr = gen(r, u, r.range(1, 3), n == 1, true);
    return u;
}

// ---- the closure
struct It { int from, to; std::string cat; AV av; bool input; int seen; double score; std::string text() const { std::string s = cat; for (AV::const_iterator i = av.begin(); i != av.end(); ++i) s += " " + i->first + "=" + i->second.text(); return str(from) + "-" + str(to) + " " + s; } };
struct Key { int f, t; std::string c; AV a; bool operator<(const Key& o) const { if (f != o.f) return f < o.f; if (t != o.t) return t < o.t; if (c != o.c) return c < o.c; return a < o.a; } };
struct Der { int rule; std::vector<int> ch; double score; };
struct Clo {
    std::vector<It> it; std::map<Key, int> ix; std::vector<std::vector<Der> > der; std::map<int, int> skip; bool big, odd; long tried;
    Clo() : big(false), odd(false), tried(0) {}
    static AV clean(const AV& a) { AV r; for (AV::const_iterator i = a.begin(); i != a.end(); ++i) if (i->second.t != 'F') r.insert(*i); return r; }
    int add(int f, int t, const std::string& c, const AV& a, bool input, double sc) {
        Key k; k.f = f; k.t = t; k.c = c; k.a = clean(a); std::map<Key, int>::iterator i = ix.find(k);
        if (i != ix.end()) { if (input) { it[i->second].input = true; ++it[i->second].seen; } return i->second; }
        It x; x.from = f; x.to = t; x.cat = c; x.av = k.a; x.input = input; x.seen = input; x.score = sc; it.push_back(x); der.push_back(std::vector<Der>()); ix[k] = it.size() - 1; return it.size() - 1;
    }
    int after(int v) const { std::map<int, int>::const_iterator i; while ((i = skip.find(v)) != skip.end()) v = i->second; return v; }
    void fit(const std::vector<Rule>& g, const Var& v, size_t slot, std::vector<int>& ch, std::vector<int>& at) {
        if (big) return;
        if (slot == v.sym.size()) {
            if (++tried > 60000) { big = true; return; }
            Frame f; f.score = 0; f.odd = false; f.rhs.resize(v.sym.size()); for (size_t i = 0; i < v.sym.size(); ++i) f.rhs[i] = at[i] < 0 ? 0 : &it[at[i]].av;
            if (v.star >= 0 && f.rhs[v.star]) f.lhs = *f.rhs[v.star];
            const Rule& r = g[v.rule]; if (r.has && ev(r.expr, f).t == 'F') { if (f.odd) odd = true; return; } if (f.odd) odd = true;
            Der d; d.rule = v.rule; d.ch = ch; d.score = f.score; int n = add(it[ch.front()].from, it[ch.back()].to, r.lhs, f.lhs, false, 0);
            for (size_t i = 0; i < der[n].size(); ++i) if (der[n][i].rule == d.rule && der[n][i].ch == d.ch && der[n][i].score == d.score) return;
            der[n].push_back(d); if (it.size() > 500) big = true; return;
        }
        if (v.sym[slot].empty()) { at[slot] = -1; fit(g, v, slot + 1, ch, at); return; }
        for (size_t i = 0, n = it.size(); i < n; ++i) if (it[i].cat == v.sym[slot] && (ch.empty() || it[i].from == after(it[ch.back()].to))) { at[slot] = i; ch.push_back(i); fit(g, v, slot + 1, ch, at); ch.pop_back(); }
    }
    void close(const std::vector<Rule>& g, const std::vector<Var>& v) {
        size_t n; do { n = it.size(); size_t t = 0; for (size_t i = 0; i < der.size(); ++i) t += der[i].size(); for (size_t i = 0; i < v.size() && !big; ++i) { std::vector<int> ch, at(v[i].sym.size()); fit(g, v[i], 0, ch, at); } size_t u = 0; for (size_t i = 0; i < der.size(); ++i) u += der[i].size(); if (u == t && n == it.size()) break; } while (!big);
    }
    bool above(int i, int n, std::set<int>& seen) const {                           // is n below i by rules of one symbol only?
        if (i == n) return true; if (!seen.insert(i).second) return false;
        for (size_t d = 0; d < der[i].size(); ++d) if (der[i][d].ch.size() == 1 && above(der[i][d].ch[0], n, seen)) return true;
        return false;
    }
    // exactly one way to get it: then its score is known
    std::map<int, int> uq;
    bool unique(int i, double& s) {
        const It& x = it[i]; if (x.input) { s = x.score; return x.seen == 1 && der[i].empty(); }
        if (der[i].size() != 1 || uq[i] == 1) return false; uq[i] = 1; double t = der[i][0].score; bool ok = true;
        for (size_t k = 0; k < der[i][0].ch.size() && ok; ++k) { double z; ok = unique(der[i][0].ch[k], z); t += z; }
        uq[i] = 0; s = t; return ok;
    }
};
static std::string lower1(std::string s) { if (!s.empty()) s[0] = tolower(s[0]); return s; }
static Key key_of(Lattice& l, Edge e) {
    Key k; k.f = l.getEdgeSource(e); k.t = l.getEdgeTarget(e); std::string c = l.getAnnotationCategory(e); k.c = lower1(c); LayerTagCollection t = l.getEdgeLayerTags(e);
    if (l.getLayerTagManager().isThere("token", t)) k.c = "'" + l.getAnnotationText(e) + "'";
    else if (l.getLayerTagManager().isThere("form", t)) { boost::optional<std::string> m = l.getEdgeLemma(e); k.c = m ? "'$" + *m + "'" : ""; }
    std::list<std::pair<std::string, zvalue> > v = l.getAnnotationItemManager().getValuesAsZvalues(l.getEdgeAnnotationItem(e)); AnnotationItemManager& m = l.getAnnotationItemManager();
    for (std::list<std::pair<std::string, zvalue> >::iterator i = v.begin(); i != v.end(); ++i) { std::string n = i->first; if (!n.empty()) n[0] = toupper(n[0]); V x = m.is_any(i->second) ? V('A') : m.is_false(i->second) ? V() : m.is_int(i->second) ? V('I', m.to_int(i->second)) : V('S', m.to_string(i->second)); if (x.t != 'F') k.a[n] = x; }
    return k;
}
static std::string text(const Key& k) { It x; x.from = k.f; x.to = k.t; x.cat = k.c; x.av = k.a; return x.text(); }
static bool helper(Lattice& l, Edge e) { return l.getAnnotationCategory(e).substr(0, 1) == "<"; }
typedef std::vector<Key> Keys;
static void flat(Lattice& l, Edge e, std::vector<Keys>& out, int depth) {           // the sequences of children of an edge, without the helpers
    std::list<Lattice::Partition> ps = l.getEdgePartitions(e);
    for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) {
        if (p->getRuleId() < 0) continue; // (an analysis, not a tree)
        std::vector<Keys> acc(1); Lattice::Partition::Iterator i(l, *p);
        while (i.hasNext()) { Edge c = i.next(); std::vector<Keys> nx; if (helper(l, c) && depth < 12) { std::vector<Keys> sub; flat(l, c, sub, depth + 1); for (size_t a = 0; a < acc.size(); ++a) for (size_t b = 0; b < sub.size() && nx.size() < 3000; ++b) { Keys k = acc[a]; k.insert(k.end(), sub[b].begin(), sub[b].end()); nx.push_back(k); } } else for (size_t a = 0; a < acc.size(); ++a) { Keys k = acc[a]; k.push_back(key_of(l, c)); nx.push_back(k); } acc = nx; }
        out.insert(out.end(), acc.begin(), acc.end());
    }
}
static std::string seq(const Keys& k) { std::string s; for (size_t i = 0; i < k.size(); ++i) s += (i ? " | " : "") + text(k[i]); return s; }

// the trees put out: from the left, the longest phrase that starts where the last one ended (of those the one with the best score), else the shortest edge
static void chosen(Ctx& c, Lattice& l, const std::vector<Edge>& trees) {
    static const char* in[] = {"normalization", "term", "token", "parse-terminal", "form", "lexeme", "gobio"}; LayerTagManager& m = l.getLayerTagManager();
    std::map<int, std::vector<Edge> > outs; Lattice::EdgesSortedBySourceIterator es = l.edgesSortedBySource(m.anyTag());
    while (es.hasNext()) { Edge e = es.next(); LayerTagCollection t = l.getEdgeLayerTags(e); if (m.isThere("parse", t) && !m.isThere("parse-aux", t)) continue; for (int i = 0; i < 7; ++i) if (m.isThere(in[i], t)) { outs[l.getEdgeSource(e)].push_back(e); break; } }
    std::set<Edge> below; for (size_t i = 0; i < trees.size(); ++i) { std::list<Lattice::Partition> ps = l.getEdgePartitions(trees[i]); for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) { Lattice::Partition::Iterator k(l, *p); while (k.hasNext()) below.insert(k.next()); } }
    std::set<std::pair<int, int> > spans, steps; for (size_t i = 0; i < trees.size(); ++i) spans.insert(std::make_pair(l.getEdgeSource(trees[i]), l.getEdgeTarget(trees[i])));
    int v = l.getFirstVertex();
    while (outs.count(v)) {
        const std::vector<Edge>& o = outs[v]; int best = -1, least = 1 << 30; double sc = 0; std::set<std::string> cats;
        for (size_t i = 0; i < o.size(); ++i) {
            int t = l.getEdgeTarget(o[i]); least = std::min(least, t); if (!m.isThere("gobio", l.getEdgeLayerTags(o[i])) || helper(l, o[i])) continue; double s = l.getEdgeScore(o[i]);
            if (t > best || (t == best && s > sc + 1e-6)) { best = t; sc = s; cats.clear(); } if (t == best && fabs(s - sc) <= 1e-6) cats.insert(lower1(l.getAnnotationCategory(o[i])));
        }
        if (best >= 0) {
            bool ok = false; std::string w; for (size_t i = 0; i < trees.size(); ++i) if ((int)l.getEdgeSource(trees[i]) == v && (int)l.getEdgeTarget(trees[i]) == best) { std::string k = lower1(l.getAnnotationCategory(trees[i])); w += " " + k; if (cats.count(k)) ok = true; }
            c.expect(ok, "tree-missing", "the longest phrase from " + str(v) + " ends at " + str(best) + " and is " + (cats.empty() ? "?" : *cats.begin()) + ", but the trees of that span are:" + w); c.count("gobio: trees chosen");
        }
        steps.insert(std::make_pair(v, best >= 0 ? best : least)); v = best >= 0 ? best : least;
    }
    for (size_t i = 0; i < trees.size(); ++i) if (!below.count(trees[i])) { int f = l.getEdgeSource(trees[i]), t = l.getEdgeTarget(trees[i]); c.expect(steps.count(std::make_pair(f, t)), "tree-extra", "a tree " + l.getAnnotationCategory(trees[i]) + " at " + str(f) + "-" + str(t) + " is none of the longest phrases from the left"); }
}
static void drop(std::vector<Rule>& g) {                                            // (for reducing a case by hand: VF_DROP=012 leaves out these rules)
    const char* d = getenv("VF_DROP"); if (!d) return; std::vector<Rule> n; for (size_t i = 0; i < g.size(); ++i) if (!strchr(d, '0' + (int)i)) n.push_back(g[i]); if (!n.empty()) g = n;
}
static void gobio_case(Ctx& c) {
    Rng& r = c.r; std::vector<std::string> words, syms; static const char* W[] = {"ala", "kot", "ma", "żółw"};
    int nw = r.range(1, 5); for (int i = 0; i < nw; ++i) words.push_back(W[r.below(4)]);
    int nt = r.range(1, 4); for (int i = 0; i < nt; ++i) syms.push_back(TERM[i]); int nn = r.range(1, 4); for (int i = 0; i < nn; ++i) syms.push_back(NONT[i]);
    if (r.chance(40)) syms.push_back("'" + std::string(W[r.below(4)]) + "'"); if (r.chance(20)) syms.push_back("'$lem'"); if (r.chance(20)) syms.push_back("'@lem'");
    std::vector<Rule> g; int ng = r.range(1, 6); for (int i = 0; i < ng; ++i) g.push_back(rule(r, syms)); drop(g); std::string rules; if (r.chance(15)) rules += "# grammar\n\n"; for (size_t i = 0; i < g.size(); ++i) rules += print(g[i], r);
    std::vector<Var> vars; for (size_t i = 0; i < g.size(); ++i) expand(g[i], i, vars); std::set<std::string> used; for (size_t i = 0; i < vars.size(); ++i) for (size_t k = 0; k < vars[i].sym.size(); ++k) used.insert(vars[i].sym[k]);
    bool at = used.count("'@lem'");
    // the sentence
    std::string txt; std::vector<std::pair<int, int> > pos; std::vector<int> blanks; if (r.chance(10)) { blanks.push_back(0); txt = " "; }
    for (int i = 0; i < nw; ++i) { int p = txt.size(); txt += words[i]; pos.push_back(std::make_pair(p, (int)txt.size())); if (i + 1 < nw || r.chance(10)) { int b = r.chance(75) ? 1 : r.chance(50) ? 0 : r.range(2, 3); for (int k = 0; k < b; ++k) { blanks.push_back(txt.size()); txt += " "; } } }
    AnnotationItemManager aim; Lattice l(aim, txt); l.addSymbols(l.getFirstVertex(), l.getLastVertex()); Clo cl; std::string in;
    for (size_t i = 0; i < blanks.size(); ++i) { l.addEdge(blanks[i], blanks[i] + 1, AnnotationItem("B", StringFrag(" ")), lt(l, "token")); cl.skip[blanks[i]] = blanks[i] + 1; }
    std::vector<std::pair<int, Edge> > tok; for (int i = 0; i < nw; ++i) { double sc = r.chance(80) ? 0 : r.range(-3, 3); Lattice::EdgeSequence none; tok.push_back(std::make_pair(i, l.addEdge(pos[i].first, pos[i].second, AnnotationItem("T", StringFrag(words[i])), lt(l, "token"), none, sc))); cl.add(pos[i].first, pos[i].second, "'" + words[i] + "'", AV(), true, sc); }
    int ne = r.range(nw, nw * 2 + 1);
    for (int i = 0; i < ne; ++i) {
        int a = i < nw ? i : r.below(nw), b = r.chance(85) ? a : std::min(nw - 1, a + 1 + (int)r.below(2)); std::string cat = r.chance(80) ? TERM[r.below(nt)] : r.pick(syms); if (cat[0] == '\'') continue; std::string out = cat; if (r.chance(40)) out[0] = toupper(out[0]);
        std::string tx = r.chance(30) ? "t" + str(i % 3) : txt.substr(pos[a].first, pos[b].second - pos[a].first); AnnotationItem ai(out, StringFrag(tx)); AV av; int na = r.below(4);
        for (int k = 0; k < na; ++k) { std::string n = ATTR[r.below(3)]; if (av.count(n)) continue; V v = r.chance(70) ? constant(VAL[r.below(4)]) : V('I', r.below(5)); av[n] = v; std::string w = n; if (r.chance(40)) w[0] = tolower(w[0]); aim.setValue(ai, w, v.t == 'A' ? "any" : v.text()); }
        double sc = r.chance(60) ? 0 : r.range(-4, 4) / 2.0; Lattice::EdgeSequence none; bool form = used.count("'$lem'") && r.chance(30), lem = at && r.chance(50); Edge e;
        if (form || lem) {
            Lattice::EdgeSequence::Builder b1(l), b2(l), b3(l); for (int k = a; k <= b; ++k) b1.addEdge(tok[k].second); b2.addEdge(l.addEdge(pos[a].first, pos[b].second, AnnotationItem("word", StringFrag(r.chance(70) ? "lem" : "inny")), lt(l, "lemma"), b1.build())); b3.addEdge(l.addEdge(pos[a].first, pos[b].second, AnnotationItem(cat, StringFrag(cat + "+x")), lt(l, "lexeme"), b2.build()));
            e = l.addEdge(pos[a].first, pos[b].second, ai, lt(l, form ? "form" : "parse-terminal"), b3.build(), sc);
        } else e = l.addEdge(pos[a].first, pos[b].second, ai, lt(l, "parse-terminal"), none, sc);
        Key k = key_of(l, e); bool fresh = !l.getLayerTagManager().isThere("form", l.getEdgeLayerTags(e)) || !l.getLayerTagManager().isThere("parse-terminal", l.getEdgeLayerTags(e)); if (!fresh) return;
        cl.add(k.f, k.t, k.c, k.a, true, l.getEdgeScore(e)); in += (in.empty() ? "" : "; ") + text(k);
        if (at && !form) { boost::optional<std::string> m = l.getEdgeLemma(e); if ((m ? *m : l.getAnnotationText(e)) == "lem") cl.add(k.f, k.t, "'@lem'", k.a, true, 0); }
    }
    // an edge is found again by its annotation: two edges under one key keep apart only by their text
    c.trace = "rules:\n" + rules + "text " + q(txt) + "\nedges: " + in; cl.close(g, vars);
    if (cl.big) { c.count("gobio: too large"); return; } if (cl.odd) { c.count("gobio: odd arithmetic"); return; }
    { std::ofstream f(tmp().c_str(), std::ios::binary); f << rules; }
    { Gobio p(r.chance(50) ? "xx" : "de", tmp(), "parse-terminal", -1); p.parse(l); } unlink(tmp().c_str());
    if (getenv("VF_DUMP")) {
        Lattice::EdgesSortedBySourceIterator ds = l.edgesSortedBySource(l.getLayerTagManager().anyTag());
        while (ds.hasNext()) { Edge e = ds.next(); LayerTagCollection t = l.getEdgeLayerTags(e); if (!l.getLayerTagManager().isThere("parse-aux", t)) continue; fprintf(stderr, "edge %s\n", text(key_of(l, e)).c_str()); std::vector<Keys> fl; std::list<Lattice::Partition> ps = l.getEdgePartitions(e); for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) { std::string w; Lattice::Partition::Iterator i(l, *p); while (i.hasNext()) w += text(key_of(l, i.next())) + " | "; fprintf(stderr, "      rule %d: %s\n", (int)p->getRuleId(), w.c_str()); } }
        for (size_t i = 0; i < cl.it.size(); ++i) for (size_t d = 0; d < cl.der[i].size(); ++d) { std::string w; for (size_t j = 0; j < cl.der[i][d].ch.size(); ++j) w += cl.it[cl.der[i][d].ch[j]].text() + " | "; fprintf(stderr, "want %s rule %d: %s\n", cl.it[i].text().c_str(), cl.der[i][d].rule, w.c_str()); }
    }
    // what was found
    std::map<Key, Edge> got; std::vector<Edge> trees; Lattice::EdgesSortedBySourceIterator es = l.edgesSortedBySource(l.getLayerTagManager().anyTag());
    while (es.hasNext()) { Edge e = es.next(); LayerTagCollection t = l.getEdgeLayerTags(e); if (l.getLayerTagManager().isThere("parse", t)) trees.push_back(e); if (!l.getLayerTagManager().isThere("parse-aux", t)) continue; double m = -1e300; std::list<Lattice::Partition> ps = l.getEdgePartitions(e); for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) m = std::max(m, (double)p->getScore()); if (!helper(l, e)) { got[key_of(l, e)] = e; c.count("gobio: edges"); } else c.count("gobio: helper edges"); near(c, l.getEdgeScore(e), m, "score-of-edge", text(key_of(l, e))); }
    long derived = 0; for (size_t i = 0; i < cl.it.size(); ++i) if (!cl.it[i].input) { Key k; k.f = cl.it[i].from; k.t = cl.it[i].to; k.c = cl.it[i].cat; k.a = cl.it[i].av; ++derived; c.expect(got.count(k), "missing", "not parsed, though a rule gives it: " + cl.it[i].text()); }
    for (std::map<Key, Edge>::iterator i = got.begin(); i != got.end(); ++i) {
        std::map<Key, int>::iterator z = cl.ix.find(i->first); c.expect(z != cl.ix.end() && !cl.der[z->second].empty(), "unfounded", "parsed, though no rule gives it: " + text(i->first)); int n = z->second;
        std::set<Keys> have, want, all; std::vector<Keys> fl; flat(l, i->second, fl, 0); have.insert(fl.begin(), fl.end()); for (size_t d = 0; d < cl.der[n].size(); ++d) { Keys k; for (size_t j = 0; j < cl.der[n][d].ch.size(); ++j) { const It& x = cl.it[cl.der[n][d].ch[j]]; Key y; y.f = x.from; y.t = x.to; y.c = x.cat; y.a = x.av; k.push_back(y); } std::set<int> seen; all.insert(k); if (k.size() > 1 || !cl.above(cl.der[n][d].ch[0], n, seen)) want.insert(k); }
        bool forms = false; for (std::set<Keys>::iterator k = have.begin(); k != have.end(); ++k) { if (cl.it[n].input && k->size() <= 1) forms = true; if (!k->empty() && !all.count(*k) && !cl.it[n].input) c.expect(false, "wrong-children", text(i->first) + " was built of " + seq(*k) + ", which no rule allows"); }
        if (!cl.it[n].input && !forms) for (std::set<Keys>::iterator k = want.begin(); k != want.end(); ++k) c.expect(have.count(*k), "missing-children", text(i->first) + " can also be built of " + seq(*k));
        double s; if (!cl.it[n].input && cl.unique(n, s)) { double m = -1e300; std::list<Lattice::Partition> ps = l.getEdgePartitions(i->second); for (std::list<Lattice::Partition>::iterator p = ps.begin(); p != ps.end(); ++p) if (p->getRuleId() >= 0) m = std::max(m, (double)p->getScore()); near(c, m, s, "score", text(i->first) + ", the only analysis"); c.count("gobio: scores"); }
        c.count("gobio: derivations", have.size());
    }
    chosen(c, l, trees);
    if (derived) c.nontrivial = true; c.count("gobio: cases"); c.count("gobio: tree edges", trees.size());
}
void setup(const std::string&) {}
void run_case(Ctx& c) { c.kind = "gobio"; gobio_case(c); }
}
VF_MAIN

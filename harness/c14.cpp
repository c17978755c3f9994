// C14: finite-state operations against operations on languages (own automata, canonical minimal DFA).
#include "h.hpp"
#include <fstream>
#include <memory>
#include <boost/cstdint.hpp>
#include "logging.hpp"
#include "fsa_ndfsa.hpp"
#include "fsa_dfsa.hpp"
#include "fsa_bindfsa.hpp"
#include "fsa_algorithms.hpp"
#include "fsa_multi_store.hpp"
#include "fsa_query_grammers.hpp"
using namespace fsa;
namespace vf {
void setup(const std::string&) {}
// ------------------------------------------------------------------ reference automata
static const unsigned SY[] = {'a', 'b', 0xE9, 253};          // the alphabet (253 is ERROR, an ordinary symbol)
static const int K = 4;
struct N {                                                 // nondeterministic, sym -1: epsilon; ANY only in wildcard mode
    int n; std::set<int> s, f; std::vector<std::vector<std::pair<int, int> > > a;
    N() : n(0) {}
    int add() { a.push_back(std::vector<std::pair<int, int> >()); return n++; }
    void arc(int p, int x, int q) { a[p].push_back(std::make_pair(x, q)); }
    int graft(const N& o) { int b = n; for (int i = 0; i < o.n; ++i) add(); for (int i = 0; i < o.n; ++i) for (size_t k = 0; k < o.a[i].size(); ++k) arc(b + i, o.a[i][k].first, b + o.a[i][k].second); return b; }
};
struct L {                                                 // canonical complete minimal DFA, start 0
    std::vector<std::vector<int> > d; std::vector<char> f;
    bool operator==(const L& o) const { return d == o.d && f == o.f; }
    bool in(const std::vector<int>& w) const { int p = 0; for (size_t i = 0; i < w.size(); ++i) p = d[p][w[i]]; return f[p]; }
    int dead() const { for (size_t p = 0; p < f.size(); ++p) { bool x = !f[p]; for (int k = 0; k < K; ++k) if (d[p][k] != (int)p) x = false; if (x) return p; } return -1; }
    int trim() const { int n = (int)f.size(); int z = dead(); if (z >= 0) --n; return n ? n : 1; }
    bool empty() const { return f.size() == 1 && !f[0]; }
};
struct Big {};
static void close(const N& n, std::set<int>& s) {
    std::vector<int> q(s.begin(), s.end());
    while (!q.empty()) { int p = q.back(); q.pop_back(); for (size_t k = 0; k < n.a[p].size(); ++k) if (n.a[p][k].first < 0 && s.insert(n.a[p][k].second).second) q.push_back(n.a[p][k].second); }
}
static L canon(const L& x) {                               // Moore + breadth-first numbering
    size_t n = x.f.size(); std::vector<int> c(x.f.begin(), x.f.end()); size_t cnt = 0;
    for (;;) {
        std::map<std::vector<int>, int> m; std::vector<int> e(n);
        for (size_t p = 0; p < n; ++p) { std::vector<int> s(1, c[p]); for (int k = 0; k < K; ++k) s.push_back(c[x.d[p][k]]); e[p] = m.insert(std::make_pair(s, (int)m.size())).first->second; }
        c.swap(e); if (m.size() == cnt) break; cnt = m.size();
    }
    L r; std::map<int, int> id; std::vector<int> o; id[c[0]] = 0; o.push_back(0);
    std::vector<int> rep(cnt, -1); for (size_t p = 0; p < n; ++p) if (rep[c[p]] < 0) rep[c[p]] = p;
    for (size_t i = 0; i < o.size(); ++i) {
        std::vector<int> t;
        for (int k = 0; k < K; ++k) { int z = c[x.d[o[i]][k]]; if (!id.count(z)) { int v = (int)id.size(); id[z] = v; o.push_back(rep[z]); } t.push_back(id[z]); }
        r.d.push_back(t); r.f.push_back(x.f[o[i]]);
    }
    return r;
}
static L det(const N& n, bool any = false) {               // any: arcs with symbol K stand for every symbol
    std::map<std::set<int>, int> id; std::vector<std::set<int> > o; L r;
    std::set<int> s = n.s; close(n, s); id[s] = 0; o.push_back(s);
    for (size_t i = 0; i < o.size(); ++i) {
        std::set<int> cur = o[i]; std::vector<int> t; bool fin = false;
        for (std::set<int>::iterator p = cur.begin(); p != cur.end(); ++p) if (n.f.count(*p)) fin = true;
        for (int k = 0; k < K; ++k) {
            std::set<int> z;
            for (std::set<int>::iterator p = cur.begin(); p != cur.end(); ++p) for (size_t e = 0; e < n.a[*p].size(); ++e) if (n.a[*p][e].first == k || (any && n.a[*p][e].first == K)) z.insert(n.a[*p][e].second);
            close(n, z);
            if (!id.count(z)) { int v = (int)id.size(); id[z] = v; o.push_back(z); if (v > 3000) throw Big(); }
            t.push_back(id[z]);
        }
        r.d.push_back(t); r.f.push_back(fin);
    }
    return canon(r);
}
static N nfa(const L& l) { N n; for (size_t i = 0; i < l.f.size(); ++i) n.add(); for (size_t i = 0; i < l.f.size(); ++i) { for (int k = 0; k < K; ++k) n.arc(i, k, l.d[i][k]); if (l.f[i]) n.f.insert(i); } n.s.insert(0); return n; }
static L product(const L& x, const L& y, bool both) {
    std::map<std::pair<int, int>, int> id; std::vector<std::pair<int, int> > o; L r; o.push_back(std::make_pair(0, 0)); id[o[0]] = 0;
    for (size_t i = 0; i < o.size(); ++i) {
        std::pair<int, int> p = o[i]; std::vector<int> t;
        for (int k = 0; k < K; ++k) { std::pair<int, int> z(x.d[p.first][k], y.d[p.second][k]); if (!id.count(z)) { int v = (int)id.size(); id[z] = v; o.push_back(z); if (v > 20000) throw Big(); } t.push_back(id[z]); }
        r.d.push_back(t); r.f.push_back(both ? (x.f[p.first] && y.f[p.second]) : (x.f[p.first] || y.f[p.second]));
    }
    return canon(r);
}
static L cat(const L& x, const L& y) { N n = nfa(x); int b = n.graft(nfa(y)); for (std::set<int>::iterator p = n.f.begin(); p != n.f.end(); ++p) n.arc(*p, -1, b); n.f.clear(); for (size_t i = 0; i < y.f.size(); ++i) if (y.f[i]) n.f.insert(b + i); return det(n); }
static L plus(const L& x) { N n = nfa(x); for (std::set<int>::iterator p = n.f.begin(); p != n.f.end(); ++p) n.arc(*p, -1, 0); return det(n); }
static L word(const std::vector<int>& w) { N n; int p = n.add(); n.s.insert(p); for (size_t i = 0; i < w.size(); ++i) { int q = n.add(); n.arc(p, w[i], q); p = q; } n.f.insert(p); return det(n); }
static L opt(const L& x) { return product(x, word(std::vector<int>()), false); }
static L rev(const L& x) { N n = nfa(x), m; for (int i = 0; i < n.n; ++i) m.add(); for (int i = 0; i < n.n; ++i) for (size_t k = 0; k < n.a[i].size(); ++k) m.arc(n.a[i][k].second, n.a[i][k].first, i); m.s = n.f; m.f = n.s; return det(m); }
// ------------------------------------------------------------------ reading the real automata
static int symIndex(unsigned s) { for (int k = 0; k < K; ++k) if (SY[k] == s) return k; return s == EPS ? -1 : s == ANY ? K : -2; }
template <class F> N extract(Ctx& c, F& f, const std::string& what) {
    N n; size_t z = f.size(); for (size_t i = 0; i < z; ++i) n.add();
    for (size_t i = 0; i < z; ++i) {
        ArcRange<typename F::arc_iterator_type> r = f.getArcs(i);
        for (typename F::arc_iterator_type it = r.first; it != r.second; ++it) {
            int k = symIndex((unsigned char)it->getSymbol());
            c.expect(k != -2, "structure", what + ": an arc with a symbol that nobody put in");
            c.expect((size_t)it->getDest() < z, "structure", what + ": an arc leads to a state that does not exist");
            n.arc(i, k, it->getDest());
        }
        if (f.isEndState(i)) n.f.insert(i);
    }
    std::set<typename F::state_type> s = f.getStartStates(), e = f.getEndStates();
    for (typename std::set<typename F::state_type>::iterator p = s.begin(); p != s.end(); ++p) { if (z == 0) break; c.expect((size_t)*p < z && f.isStartState(*p), "structure", what + ": start states"); n.s.insert(*p); }
    std::set<int> ee(e.begin(), e.end()); c.expect(ee == n.f, "structure", what + ": end states");
    return n;
}
static bool hasEps(const N& n) { for (int i = 0; i < n.n; ++i) for (size_t k = 0; k < n.a[i].size(); ++k) if (n.a[i][k].first < 0) return true; return false; }
static bool isDet(const N& n) { if (n.s.size() != 1) return false; for (int i = 0; i < n.n; ++i) { std::set<int> s; for (size_t k = 0; k < n.a[i].size(); ++k) if (n.a[i][k].first < 0 || !s.insert(n.a[i][k].first).second) return false; } return true; }
static std::vector<int> rw(Rng& r, int mx) { std::vector<int> w; int n = r.range(0, mx), k = r.range(1, K); for (int i = 0; i < n; ++i) w.push_back(r.below(k)); return w; }
static std::string ws(const std::vector<int>& w) { std::string s; for (size_t i = 0; i < w.size(); ++i) s += (char)SY[w[i]]; return s; }
typedef NDFSA<> F;
struct V { F f; L l; bool wild; V() : wild(false) {} };    // wild: compared as languages with ANY standing for every symbol
static void same(Ctx& c, V& v, const std::string& what) {
    N n = extract(c, v.f, what); L g = det(n, true);
    c.count("monitor_checks"); c.count("automata_compared");
    if (!(g == v.l)) {
        // find a short separating word
        std::vector<std::vector<int> > q(1); std::string w = "?";
        for (size_t i = 0; i < q.size() && i < 4000; ++i) { if (g.in(q[i]) != v.l.in(q[i])) { w = (g.in(q[i]) ? "wrongly accepts " : "wrongly rejects ") + vf::q(ws(q[i])); break; } for (int k = 0; k < K; ++k) { q.push_back(q[i]); q.back().push_back(k); } }
        c.fail("language:" + what, what + ": " + w);
    }
}
static void words(Ctx& c, V& v, const std::string& what) {
    if (v.wild) return;
    N n = extract(c, v.f, what); if (hasEps(n)) return;
    bool d = isDet(n) && n.s.count(0);
    DFSA<> df; if (d) df = v.f;
    for (int i = 0; i < 12; ++i) {
        std::vector<int> w; 
        if (i < 6) w = rw(c.r, 8); else { int p = 0, z = v.l.dead(); for (int s = 0; s < 12; ++s) { int k = c.r.below(K); for (int t = 0; t < K && v.l.d[p][k] == z; ++t) k = (k + 1) % K; w.push_back(k); p = v.l.d[p][k]; if (v.l.f[p] && c.r.chance(30)) break; } }
        std::string s = ws(w); c.count("words_asked"); if (v.l.in(w)) c.count("words_accepted");
        c.eq(v.f.in(s.begin(), s.end()), v.l.in(w), "in", what + ": in(" + q(s) + ")");
        if (d) c.eq(df.in(s.begin(), s.end()), v.l.in(w), "in-dfsa", what + ": DFSA in(" + q(s) + ")");
    }
}
static std::string alpha(const std::vector<int>& w) { std::string s; for (size_t i = 0; i < w.size(); ++i) s += "abeR"[w[i]]; return "'" + s + "'"; }
static V leaf(Ctx& c, bool wild) {
    Rng& r = c.r; V v;
    switch (r.range(0, 7)) {
        case 0: v.l = det(N()); c.note("empty"); break;
        case 1: { int k = r.below(K); v.f = F((Symbol)SY[k]); v.l = word(std::vector<int>(1, k)); c.note("symbol " + alpha(std::vector<int>(1, k))); break; }
        case 2: case 3: { std::vector<int> w = rw(r, 5); v.f = F(ws(w)); v.l = word(w); c.note("string " + alpha(w)); break; }
        case 4: { std::vector<int> w = rw(r, 5); std::string s = ws(w); v.f = F(s.begin(), s.end()); v.l = word(w); c.note("range " + alpha(w)); break; }
        default: {
            int n = r.range(1, 5); N m; std::string d = "graph " + str(n) + ":";
            for (int i = 0; i < n; ++i) { bool st = r.chance(i ? 20 : 80); v.f.addState(st); m.add(); if (st) { m.s.insert(i); d += " s" + str(i); } if (r.chance(35)) { v.f.setEndState(i); m.f.insert(i); d += " f" + str(i); } }
            int e = r.range(0, 2 * n);
            for (int i = 0; i < e; ++i) { int p = r.below(n), x = r.range(-1, wild ? K : K - 1), y = r.below(n); m.arc(p, x, y); v.f.addArc(p, Arc<>(x < 0 ? EPS : x == K ? ANY : (Symbol)SY[x], y)); d += " " + str(p) + "-" + str(x) + "-" + str(y); }
            if (r.chance(15)) { v.f.addState(); if (r.chance(50)) v.f.setEndState(n); v.f.setStartState(n); v.f.deleteLastState(); d += " (one more state, deleted)"; }
            v.l = det(m, true); v.wild = wild; c.note(d);
        }
    }
    same(c, v, "leaf");
    return v;
}
static void expr(Ctx& c) {
    Rng& r = c.r; c.kind = "expression"; bool wild = r.chance(15); if (wild) c.kind = "wildcards";
    std::vector<V> st; int steps = r.range(3, c.thorough ? 14 : 10); int ops = 0;
    try {
    for (int i = 0; i < steps; ++i) {
        if (st.empty() || st.size() > 3 || (st.size() < 2 && r.chance(45)) || r.chance(25)) { if (st.size() <= 3) { st.push_back(leaf(c, wild)); continue; } }
        V& t = st.back(); std::string op;
        if (st.size() >= 2 && r.chance(55)) {
            V u = t; V& d = st[st.size() - 2]; std::set<int> dummy;
            int k = r.range(0, 2); if (wild) k = r.chance(50) ? 1 : k;
            L before = u.l;
            if (k == 0) { op = "unify"; c.note(op); unify(d.f, u.f); d.l = product(d.l, u.l, false); }
            else if (k == 1) { op = wild ? "intersect-any" : "intersect"; c.note(op); intersect(d.f, u.f, wild); d.l = product(d.l, u.l, true); }
            else { op = "concatenate"; c.note(op); bool none = d.f.size() == 0; concatenate(d.f, u.f); d.l = none ? u.l : cat(d.l, u.l); }
            d.wild = d.wild || u.wild;
            same(c, u, op + " (second operand)");          // the second operand is left alone
            st.pop_back(); same(c, st.back(), op);
        } else {
            int k = r.range(0, 9);
            switch (k) {
                case 0: op = "option"; c.note(op); kleene_option(t.f); t.l = opt(t.l); break;
                case 1: op = "plus"; c.note(op); kleene_plus(t.f); t.l = plus(t.l); break;
                case 2: op = "star"; c.note(op); kleene_star(t.f); t.l = opt(plus(t.l)); break;
                case 3: op = "reverse"; c.note(op); reverse(t.f); t.l = rev(t.l); break;
                case 4: op = "reachable"; c.note(op); reachable(t.f); break;
                case 5: op = "prune"; c.note(op); prune(t.f); break;
                case 6: op = "epsRemove"; c.note(op); epsRemove(t.f); c.expect(!hasEps(extract(c, t.f, op)), "structure", "epsilon arcs after epsRemove"); break;
                case 7: op = "determinize"; c.note("epsRemove, " + op); epsRemove(t.f); determinize(t.f); c.expect(isDet(extract(c, t.f, op)), "structure", "not deterministic after determinize"); break;
                case 8: op = "minimize"; c.note(op); minimize(t.f); { N n = extract(c, t.f, op); c.expect(isDet(n), "structure", "not deterministic after minimize"); if (!t.wild) c.eq((int)n.n, t.l.trim(), "minimal", "states after minimize"); c.count("minimized"); } break;
                default: { op = "copy"; c.note(op); V w = t; if (r.chance(50)) { F g(t.f); w.f = g; kleene_star(g); } kleene_plus(w.f); reverse(w.f); same(c, t, "original after changing a copy"); V z = t; z.f = z.f; t = z; }
            }
            same(c, t, op);
            words(c, t, op);
        }
        ++ops; if (st.back().f.size() > 120) { V& b = st.back(); c.note("minimize (too big)"); minimize(b.f); same(c, b, "minimize"); }
    }
    } catch (Big&) { c.count("given_up_too_big"); return; }
    // a binary automaton built state by state from the last one
    V& t = st.back();
    if (!t.wild) {
        epsRemove(t.f); Determinizer<F> dz(t.f); MemBinDFSA b; traverse(dz, b);
        N n = extract(c, b, "binary automaton"); c.expect(det(n) == t.l, "language:binary", "binary automaton accepts another language");
        std::stringstream ss; ss << "xx"; b.save(ss); MemBinDFSA e; e.addState(true); e.save(ss); b.save(ss); ss.seekg(2); MemBinDFSA x, y, z; x.load(ss); y.load(ss); z.load(ss);
        c.expect(det(extract(c, x, "loaded")) == t.l && det(extract(c, z, "loaded again")) == t.l, "language:loaded", "binary automaton accepts another language after loading"); c.count("saved_and_loaded");
        c.expect(y.size() == 1 && !y.isEndState(0), "language:loaded", "an automaton without arcs after loading");
        for (int i = 0; i < 10; ++i) { std::vector<int> w = rw(r, 7); std::string s = ws(w); c.eq(x.in(s.begin(), s.end()), t.l.in(w), "in-bin", "binary automaton in(" + q(s) + ")"); }
    }
    c.nontrivial = ops >= 2 && !t.l.empty();
}
template <class D> void incr(Ctx& c, const char* what, bool file) {
    Rng& r = c.r; c.kind = what; int k = r.range(1, K), mx = r.range(1, 7); int n = r.chance(8) ? r.range(0, 1) : r.size(c.thorough ? 300 : 80);
    std::vector<std::string> w; std::set<std::string> set; std::set<std::vector<int> > ids;
    std::vector<std::vector<int> > suf; for (int i = 0; i < 4; ++i) suf.push_back(rw(r, 4));
    for (int i = 0; i < n; ++i) { std::vector<int> x; int l = r.range(0, mx); for (int z = 0; z < l; ++z) x.push_back(r.below(k)); if (r.chance(40)) { const std::vector<int>& s = r.pick(suf); x.insert(x.end(), s.begin(), s.end()); } ids.insert(x); w.push_back(ws(x)); set.insert(w.back()); if (r.chance(10)) w.push_back(w.back()); c.note(alpha(x)); }
    std::sort(w.begin(), w.end());
    D d; minimize_incremental(d, w.begin(), w.end());
    N ref; int root = ref.add(); ref.s.insert(root);
    for (std::set<std::vector<int> >::iterator i = ids.begin(); i != ids.end(); ++i) { int p = root; for (size_t z = 0; z < i->size(); ++z) { int q = -1; for (size_t e = 0; e < ref.a[p].size(); ++e) if (ref.a[p][e].first == (*i)[z]) q = ref.a[p][e].second; if (q < 0) { q = ref.add(); ref.arc(p, (*i)[z], q); } p = q; } ref.f.insert(p); }
    L l = det(ref);
    N g = extract(c, d, what); c.expect(isDet(g), "incremental", "not deterministic"); c.expect(det(g) == l, "incremental", "language of the incrementally built automaton"); c.count("automata_compared");
    c.eq(g.n, l.trim(), "incremental-minimal", "states of the incrementally built automaton");
    std::vector<std::string> lang; language<D, std::back_insert_iterator<std::vector<std::string> >, std::string>(d, std::back_inserter(lang));
    c.expect(lang.size() == set.size() && std::set<std::string>(lang.begin(), lang.end()) == set, "enumeration", "language() does not list every word once");
    for (int i = 0; i < 10; ++i) { std::string s; if (w.size() && r.chance(60)) { s = r.pick(w); if (s.size() && r.chance(50)) s.erase(r.below(s.size()), 1); else if (r.chance(50)) s += (char)SY[r.below(k)]; } else s = ws(rw(r, 5)); c.eq(d.in(s.begin(), s.end()), set.count(s) > 0, "incremental-in", "in(" + q(s) + ")"); c.count("words_asked"); if (set.count(s)) c.count("words_accepted"); }
    c.nontrivial = set.size() >= 2; (void)file;
}
static void store(Ctx& c) {
    Rng& r = c.r; c.kind = "multi-store"; std::multimap<std::string, std::string> m; std::set<std::string> lines; int n = r.size(c.thorough ? 200 : 60); std::vector<std::string> in;
    bool bytes = r.chance(40);
    std::vector<std::string> keys; int nk = r.range(1, 12);
    for (int i = 0; i < nk; ++i) { std::string k; int l = r.range(0, 5); for (int z = 0; z < l; ++z) { char x = bytes ? (char)r.range(1, 252) : "ab c"[r.below(4)]; if (x == '\t') x = 'q'; k += x; } keys.push_back(k); }
    for (int i = 0; i < n; ++i) { std::string v; int l = r.range(1, 6); for (int z = 0; z < l; ++z) v += bytes ? (char)r.range(1, 252) : "ab c\t"[r.below(5)]; std::string s = r.pick(keys) + "\t" + v; in.push_back(s); lines.insert(s); c.note(q(s)); }
    FSAMultiStore::Builder b; b.createFromSeparatedLines(in.begin(), in.end()); std::unique_ptr<FSAMultiStore> s(b.build());
    std::stringstream ss; s->save(ss); FSAMultiStore t; t.load(ss); c.count("saved_and_loaded");
    std::string fn = std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/c14-" + str(getpid()); s->save(fn); FSAMultiStore f; f.load(fn); unlink(fn.c_str());
    keys.push_back("zz"); keys.push_back(""); keys.push_back("a\tb"); keys.push_back("ab");
    for (size_t i = 0; i < keys.size(); ++i) {
        std::string p = keys[i] + "\t"; std::multiset<std::string> want; for (std::set<std::string>::iterator z = lines.begin(); z != lines.end(); ++z) if (z->size() > p.size() && z->compare(0, p.size(), p) == 0) want.insert(z->substr(p.size()));
        for (int k = 0; k < 3; ++k) {
            std::vector<std::string> g = (k == 0 ? *s : k == 1 ? t : f).get(keys[i]); c.count("keys_asked"); if (want.size()) c.count("keys_found");
            std::string a, e; std::sort(g.begin(), g.end()); for (size_t z = 0; z < g.size(); ++z) a += g[z] + "|"; for (std::multiset<std::string>::iterator z = want.begin(); z != want.end(); ++z) e += *z + "|";
            c.eq(a, e, k ? "multi-store-loaded" : "multi-store", "values of " + q(keys[i]));
        }
    }
    c.nontrivial = lines.size() >= 2;
}
struct Rx { std::string s; L l; };
static Rx regex(Rng& r, int d, int level) {                // level 0: alternation, 1: sequence, 2: repetition, 3: factor
    Rx x;
    if (level == 0) { x = regex(r, d, 1); int n = r.chance(30) ? r.range(1, 2) : 0; for (int i = 0; i < n; ++i) { Rx y = regex(r, d, 1); x.s += "|" + y.s; x.l = product(x.l, y.l, false); } }
    else if (level == 1) { x = regex(r, d, 2); int n = r.range(0, 2); for (int i = 0; i < n; ++i) { Rx y = regex(r, d, 2); x.s += y.s; x.l = cat(x.l, y.l); } }
    else if (level == 2) { x = regex(r, d, 3); switch (r.range(0, 6)) { case 0: x.s += "*"; x.l = opt(plus(x.l)); break; case 1: x.s += "+"; x.l = plus(x.l); break; case 2: x.s += "?"; x.l = opt(x.l); break; default: break; } }
    else if (d > 0 && r.chance(45)) { x = regex(r, d - 1, 0); x.s = "(" + x.s + ")"; }
    else { int k = r.below(K); x.s = std::string(1, (char)SY[k]); x.l = word(std::vector<int>(1, k)); }
    return x;
}
static void grammar(Ctx& c) {
    c.kind = "grammar"; Rx x; try { x = regex(c.r, c.r.range(1, 3), 0); } catch (Big&) { return; } c.note(q(x.s));
    typedef CharGrammar<std::string::const_iterator, F> G; static G g; V v; v.l = x.l;
    std::string::const_iterator i = x.s.begin(), e = x.s.end();
    bool ok = boost::spirit::qi::parse(i, e, g, v.f); c.expect(ok && i == e, "grammar", "the expression is not read to its end");
    same(c, v, "grammar"); minimize(v.f); same(c, v, "minimize"); c.eq((int)v.f.size(), v.l.trim(), "minimal", "states after minimize"); words(c, v, "grammar");
    c.nontrivial = x.s.size() >= 3;
}
void run_case(Ctx& c) {
    switch (c.r.range(0, 9)) {
        case 0: incr<DFSA<> >(c, "incremental", false); break;
        case 1: incr<StringBinFSA>(c, "incremental-binary", false); break;
        case 2: store(c); break;
        case 3: grammar(c); break;
        default: expr(c);
    }
}
}
VF_MAIN

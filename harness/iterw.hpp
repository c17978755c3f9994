// What the writers built on LatticeIterWriter have to print, from the edges of the lattice.
#ifndef VERIF_ITERW_HPP
#define VERIF_ITERW_HPP
#include "rlat.hpp"
namespace vf {
typedef std::vector<std::set<std::string> > Alt;          // alternative of conjunctions of tags
struct WItem { std::string cat, text; std::map<std::string, std::string> av; std::string put() const { return text.empty() ? cat : text; } };
struct WOpts { bool linear, noAlts, withBlank; Alt basic; std::vector<std::string> handled, fallback; };
struct WGroup { std::vector<std::vector<WItem> > el; };
inline bool blankText(const std::string& s) { return s.find_first_not_of(" \t\n\v\f\r") == std::string::npos; }
inline std::vector<WGroup> expectItems(Lattice& l, const WOpts& o, bool& anyGroup) {
    AnnotationItemManager& aim = l.getAnnotationItemManager();
    std::vector<WGroup> g(1); anyGroup = false;
    std::map<std::string, int> target; for (size_t i = 0; i < o.handled.size(); ++i) target[o.handled[i]] = l.getFirstVertex();
    std::vector<int> order;
    if (o.linear) { int v = l.getFirstVertex(); for (;;) { order.push_back(v); Lattice::InOutEdgesIterator it = l.allOutEdges(v); if (!it.hasNext()) break; v = l.getEdgeTarget(it.next()); } }
    else { Lattice::VertexIterator vi(l); while (vi.hasNext()) order.push_back(vi.next()); }
    for (size_t k = 0; k < order.size(); ++k) {
        std::vector<WItem> basic; std::vector<std::vector<WItem> > fb(o.fallback.size()); bool opens = false;
        Lattice::InOutEdgesIterator it = l.allOutEdges(order[k]);
        while (it.hasNext()) {
            Lattice::EdgeDescriptor d = it.next(); if (l.isDiscarded(d)) continue;
            std::list<std::string> tl = l.getLayerTagManager().getTagNames(l.getEdgeLayerTags(d)); std::set<std::string> t(tl.begin(), tl.end());
            AnnotationItem a = l.getEdgeAnnotationItem(d); WItem w; w.cat = a.getCategory(); w.text = a.getText(); w.av = aim.getAVMap(a);
            int f = l.getEdgeSource(d), e = l.getEdgeTarget(d); bool loose = l.isLooseVertex(f) || l.isLooseVertex(e);
            bool vis = o.withBlank || loose || !blankText(l.getAllText().substr(f, e - f));
            bool m = false; for (size_t i = 0; i < o.basic.size(); ++i) if (std::includes(t.begin(), t.end(), o.basic[i].begin(), o.basic[i].end())) m = true;
            if (vis && m) basic.push_back(w);
            if (vis) for (size_t i = 0; i < o.fallback.size(); ++i) if (t.count(o.fallback[i])) fb[i].push_back(w);
            for (std::set<std::string>::iterator z = t.begin(); z != t.end(); ++z) if (target.count(*z) && target[*z] == order[k]) { target[*z] = e; opens = true; anyGroup = true; }
        }
        for (size_t i = 0; basic.empty() && i < fb.size(); ++i) basic = fb[i];
        if (opens) g.push_back(WGroup());
        if (basic.empty() || (!o.handled.empty() && !anyGroup)) continue;
        if (o.noAlts) basic.resize(1);
        g.back().el.push_back(basic);
    }
    std::vector<WGroup> r; for (size_t i = 0; i < g.size(); ++i) if (!g[i].el.empty()) r.push_back(g[i]);
    return r;
}
inline void wopts(Ctx& c, WOpts& o, std::string& mask) {
    Rng& r = c.r; o.linear = r.chance(15); o.noAlts = r.chance(25); o.withBlank = r.chance(50);
    static const char* masks[] = {"token", "token", "lemma", "symbol", "parse", "token;parse", "token,lemma", "token,lemma;frag", "frag;parse,token", "segment", "token;lemma;parse"};
    mask = masks[r.below(11)];
    std::set<std::string> cur; std::string w;
    for (size_t i = 0; i <= mask.size(); ++i) { char x = i < mask.size() ? mask[i] : ';'; if (x == ',' || x == ';') { cur.insert(w); w = ""; if (x == ';') { o.basic.push_back(cur); cur.clear(); } } else w += x; }
    if (r.chance(45)) { o.handled.push_back(r.chance(70) ? "segment" : "parse"); if (r.chance(25)) o.handled.push_back("frag"); }
    static const char* fbs[] = {"symbol", "lemma", "token", "frag"};
    if (r.chance(35)) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) { std::string f = fbs[r.below(4)]; if (std::find(o.fallback.begin(), o.fallback.end(), f) == o.fallback.end()) o.fallback.push_back(f); } }
    std::string d = "options: mask " + mask + (o.linear ? " linear" : "") + (o.noAlts ? " no-alts" : "") + (o.withBlank ? " with-blank" : "");
    for (size_t i = 0; i < o.handled.size(); ++i) d += " spec:" + o.handled[i]; for (size_t i = 0; i < o.fallback.size(); ++i) d += " fallback:" + o.fallback[i];
    c.note(d);
}
// a random lattice, often with a chain of segments from the start and tokens inside
inline void wlattice(Ctx& c, RLat& L, bool raw) {
    Rng& r = c.r; RLOpt o; o.maxlen = r.chance(20) ? 60 : 14; o.maxedges = c.thorough ? 24 : 12; o.looses = r.chance(20); o.scores = r.chance(30); o.multi = r.chance(30); o.partlySymbols = r.chance(15); o.roles = r.chance(20);
    static const char* tg[] = {"token", "lemma", "parse", "frag", "segment", "token", "token"}; o.tags.assign(tg, tg + (r.chance(50) ? 6 : 5));
    static const char* ct[] = {"word", "N", "a b", "zażółć", "x:y", "(", "'\"", "B", "T", "B"}; o.cats.assign(ct, ct + 10);
    static const char* at[] = {"pos", "type", "R", "żółć", "a\"b"}; o.attrs.assign(at, at + 5);
    o.val = [](Rng& g) -> std::string { static const char* v[] = {"word", "R:4", "1", "0", "a b", "\\", "x\ny", "\"", "\t", "true", "żó", "/", "\x01"}; return v[g.below(13)]; };
    o.role = [](Rng& g) -> std::string { static const char* v[] = {"head", "subj"}; return v[g.below(2)]; };
    o.ann = [raw](Rng& g) -> std::string { if (g.chance(25)) return std::string(); std::string s = g.chance(50) ? rand_word(g, 6) : rand_text(g, 5); if (raw && g.chance(20)) { static const char* x[] = {"\n", "\r", "\b", "\x01", "\x1f", "\"", "\\", "\x7f", "\xe2\x80\xa8", "\\u0041", "\f"}; s += x[g.below(11)]; } return s; };
    genLattice(c, L, o);
    int n = (int)L.bnd.size() - 1;
    if (r.chance(60)) for (int p = 0; p < n;) {             // a chain
        int q2 = std::min(n, p + r.range(1, 1 + n / 2)); AnnotationItem it("S", StringFrag(L.text.substr(L.bnd[p], L.bnd[q2] - L.bnd[p]))); std::vector<std::string> t(1, r.chance(85) ? "segment" : "parse");
        L.lat.addEdge((int)L.bnd[p], (int)L.bnd[q2], it, L.ltc(t)); c.note("chain " + t[0] + " " + str(L.bnd[p]) + "-" + str(L.bnd[q2])); p = q2; if (r.chance(10)) ++p;
    }
    if (r.chance(50)) for (int p = 0; p < n;) { int q2 = std::min(n, p + r.range(1, 4)); std::string s = L.text.substr(L.bnd[p], L.bnd[q2] - L.bnd[p]); AnnotationItem it(blankText(s) ? "B" : "T", StringFrag(s)); std::vector<std::string> t(1, "token"); L.lat.addEdge((int)L.bnd[p], (int)L.bnd[q2], it, L.ltc(t)); c.note("chain token " + str(L.bnd[p]) + "-" + str(L.bnd[q2])); p = q2; }
    if (r.chance(25) && !L.e.empty()) { const REdge& x = r.pick(L.e); L.lat.discard(x.d); c.note("discard " + x.what); }
}
}
#endif

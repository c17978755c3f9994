// Random lattices for the writers, and canonical dumps of lattices.
#ifndef VERIF_RLAT_HPP
#define VERIF_RLAT_HPP
#include "h.hpp"
#include "lattice.hpp"
#include <limits>
namespace vf {
struct REdge { int from, to; std::string cat, text; std::vector<std::pair<std::string, std::string> > av; std::vector<std::string> tags; std::vector<int> links; double score; Lattice::EdgeDescriptor d; std::string what; };
struct RLat {
    AnnotationItemManager aim; Lattice lat; std::vector<REdge> e; std::vector<int> loose; std::map<int, double> lrank; std::string text;
    double rank(int v) { return lrank.count(v) ? lrank[v] : v; }
     std::vector<size_t> bnd;
    RLat() : lat(aim) {}
    std::vector<Lattice::EdgeDescriptor> symbolsBetween(int a, int b) {
        std::vector<Lattice::EdgeDescriptor> v; int p = a; LayerTagMask m = lat.getSymbolMask();
        while (p < b) {
            Lattice::InOutEdgesIterator it = lat.outEdges(p, m); bool f = false;
            while (it.hasNext()) { Lattice::EdgeDescriptor d = it.next(); if (!d.isExplicit()) { v.push_back(d); p = lat.getEdgeTarget(d); f = true; break; } }
            if (!f) return std::vector<Lattice::EdgeDescriptor>();
        }
        return v;
    }
    LayerTagCollection ltc(const std::vector<std::string>& t) { return lat.getLayerTagManager().createTagCollection(t); }
};
inline std::string numstr(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
// One line per edge.  loose: names of the loose vertices.
struct Dumper {
    Lattice& lat; AnnotationItemManager& aim; std::map<int, int> loose; int depth; bool six;
    explicit Dumper(Lattice& l) : lat(l), aim(l.getAnnotationItemManager()), depth(0), six(false) {}
    std::string num(double x) { if (!six) return numstr(x); char b[64]; snprintf(b, sizeof b, "%.6g", x); return b; }
    std::string v(int x) {
        if (!lat.isLooseVertex(x)) return str(x);
        std::map<int, int>::iterator i = loose.find(lat.getLooseVertexIndex(x));
        return "@" + (i == loose.end() ? "?" + str(lat.getLooseVertexIndex(x)) : str(i->second));
    }
    std::string tagnames(const LayerTagCollection& t) { std::string s; std::list<std::string> n = lat.getLayerTagManager().getTagNames(t); for (std::list<std::string>::iterator i = n.begin(); i != n.end(); ++i) s += (s.empty() ? "" : ",") + *i; return s; }
    std::string head(Lattice::EdgeDescriptor d) {
        AnnotationItem it = lat.getEdgeAnnotationItem(d);
        std::string s = v(lat.getEdgeSource(d)) + ">" + v(lat.getEdgeTarget(d)) + " [" + tagnames(lat.getEdgeLayerTags(d)) + "] " + q(it.getCategory()) + " " + q(it.getText()) + " " + num(lat.getEdgeScore(d));
        std::map<std::string, std::string> m = aim.getAVMap(it);
        for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) s += " " + q(i->first) + "=" + q(i->second);
        return s;
    }
    std::string parts(const Lattice::Partition& p, bool links) {
        std::string s = "(" + tagnames(p.getTagList()) + " " + num(p.getScore()) + ":";
        Lattice::EdgeSequence::Iterator it(lat, p.getSequence());
        while (it.hasNext()) { Lattice::EdgeUsage u = it.nextUsage(); s += " {" + (links ? head(u.getEdge()) : std::string()) + (NULLP(u.getRole()) ? std::string() : " $" + q(aim.zvalueToString(u.getRole()))) + "}"; }
        return s + ")";
    }
    std::string full(Lattice::EdgeDescriptor d) {
        std::string s = head(d);
        const std::list<Lattice::Partition>& ps = lat.getEdgePartitions(d);
        for (std::list<Lattice::Partition>::const_iterator p = ps.begin(); p != ps.end(); ++p) s += " " + parts(*p, true);
        return s;
    }
    std::vector<Lattice::EdgeDescriptor> all() {
        std::vector<Lattice::EdgeDescriptor> r; Lattice::EdgesSortedBySourceIterator it = lat.allEdgesSortedBySource(); while (it.hasNext()) r.push_back(it.next()); return r;
    }
};
inline std::string diffsets(const std::multiset<std::string>& a, const std::multiset<std::string>& b) {
    std::string s; int n = 0;
    for (std::multiset<std::string>::const_iterator i = a.begin(); i != a.end(); ++i) if (a.count(*i) != b.count(*i) && n++ < 4) s += "\n  only before: " + *i;
    n = 0;
    for (std::multiset<std::string>::const_iterator i = b.begin(); i != b.end(); ++i) if (a.count(*i) != b.count(*i) && n++ < 4) s += "\n  only after:  " + *i;
    return s;
}
inline bool builtFrom(Lattice& l, Lattice::EdgeDescriptor a, Lattice::EdgeDescriptor b) {       // b among a and the edges a is built of
    if (a == b) return true;
    const std::list<Lattice::Partition>& ps = l.getEdgePartitions(a);
    for (std::list<Lattice::Partition>::const_iterator p = ps.begin(); p != ps.end(); ++p) {
        Lattice::EdgeSequence::Iterator it(l, p->getSequence());
        while (it.hasNext()) if (builtFrom(l, it.next(), b)) return true;
    }
    return false;
}
// options of the generator
struct RLOpt {
    int maxlen, maxedges; bool looses, roles, scores, multi, partlySymbols, cjk; std::vector<std::string> tags, cats, attrs; std::function<std::string(Rng&)> text, ann, val, role;
    RLOpt() : maxlen(12), maxedges(10), looses(false), roles(false), scores(false), multi(false), partlySymbols(false), cjk(false) {}
};
inline std::string vname(const RLat& L, int v) { return v >= 0 ? str(v) : "@" + str(-v); }
inline void genLattice(Ctx& c, RLat& L, const RLOpt& o) {
    Rng& r = c.r;
    L.text = o.text ? o.text(r) : rand_text(r, o.maxlen);
    L.bnd = bounds(L.text);
    L.lat.appendString(L.text); c.note("text " + q(L.text));
    int n = (int)L.bnd.size() - 1;
    bool part = o.partlySymbols && r.chance(30);
    if (!part) L.lat.addSymbols(0, (int)L.text.size());
    else { int a = r.range(0, n), b = r.range(a, n); L.lat.addSymbols((int)L.bnd[a], (int)L.bnd[b]); c.note("symbols " + str(L.bnd[a]) + "-" + str(L.bnd[b])); }
    int k = r.size(o.maxedges);
    for (int i = 0; i < k; ++i) {
        REdge x; x.score = 0;
        if (o.looses && r.chance(12) && L.loose.size() < 3) { L.loose.push_back(L.lat.addLooseVertex()); L.lrank[L.loose.back()] = L.text.size() * r.unit(); }
        // candidates for parts: a chain of earlier edges
        std::vector<int> chain;
        bool rep = o.multi && !L.e.empty() && r.chance(20);
        if (rep) { const REdge& y = L.e[r.below(L.e.size())]; x = y; x.links.clear(); }
        else {
            if (!L.e.empty() && r.chance(55)) {
                int f = (int)r.below(L.e.size()); chain.push_back(f); int at = L.e[f].to;
                for (int g = 0; g < 3; ++g) { std::vector<int> nx; for (size_t z = 0; z < L.e.size(); ++z) if (L.e[z].from == at) nx.push_back((int)z); if (nx.empty() || r.chance(30)) break; int z = r.pick(nx); if (std::find(chain.begin(), chain.end(), z) != chain.end()) break; chain.push_back(z); at = L.e[z].to; }
                x.from = L.e[chain.front()].from; x.to = at;
                if (x.from == x.to || (x.from >= 0 && x.to >= 0 && x.from > x.to)) continue;
            } else {
                if (n < 1) continue;
                int a = r.range(0, n - 1), b = r.range(a + 1, std::min(n, a + (r.chance(70) ? 4 : n)));
                x.from = (int)L.bnd[a]; x.to = (int)L.bnd[b];
                if (o.looses && !L.loose.empty() && r.chance(25)) { int w = r.range(0, 2), lv = r.pick(L.loose), lv2 = r.pick(L.loose); if (w == 0) x.from = lv; else if (w == 1) x.to = lv; else if (lv != lv2) { x.from = lv; x.to = lv2; } }
            }
            if (L.rank(x.from) >= L.rank(x.to)) continue;
            x.cat = r.pick(o.cats); x.text = o.ann ? o.ann(r) : (x.from >= 0 && x.to >= 0 ? L.text.substr(x.from, x.to - x.from) : std::string("x"));
            int nt = r.range(1, 3); std::set<std::string> ts; while ((int)ts.size() < nt) ts.insert(r.pick(o.tags)); x.tags.assign(ts.begin(), ts.end());
            int na = r.chance(50) ? 0 : r.range(1, 4);
            for (int z = 0; z < na && !o.attrs.empty(); ++z) x.av.push_back(std::make_pair(r.pick(o.attrs), o.val(r)));
        }
        if (o.scores && r.chance(40)) x.score = r.chance(40) ? r.range(-3, 3) * 0.5 : (r.unit() - 0.5) * (r.chance(50) ? 1 : 1e6);
        Lattice::EdgeSequence::Builder sb(L.lat); std::string pd;
        if (rep) {
            std::vector<int> alt; for (size_t z = 0; z < L.e.size(); ++z) if (L.e[z].from == x.from && L.e[z].to == x.to && !builtFrom(L.lat, L.e[z].d, x.d)) alt.push_back((int)z);
            if (alt.empty()) continue;
            chain.push_back(r.pick(alt));
            if (r.chance(30)) { std::set<std::string> ts(x.tags.begin(), x.tags.end()); std::string t = r.pick(o.tags); if (t[0] != '!') ts.insert(t); x.tags.assign(ts.begin(), ts.end()); }
        }
        if (!chain.empty()) for (size_t z = 0; z < chain.size(); ++z) {
            zvalue role = o.roles && r.chance(30) ? L.aim.stringToZvalue(o.role ? o.role(r) : o.val(r)) : NULL_ZVALUE;
            sb.addEdge(L.e[chain[z]].d, role); pd += " #" + str(chain[z]) + (NULLP(role) ? "" : "$" + q(L.aim.zvalueToString(role)));
            x.links.push_back(chain[z]);
        } else if (x.from >= 0 && x.to >= 0 && r.chance(70)) {
            std::vector<Lattice::EdgeDescriptor> sy = L.symbolsBetween(x.from, x.to);
            for (size_t z = 0; z < sy.size(); ++z) sb.addEdge(sy[z]);
            if (!sy.empty()) pd += " symbols";
        }
        AnnotationItem it(x.cat, StringFrag(x.text));
        for (size_t z = 0; z < x.av.size(); ++z) L.aim.setValue(it, x.av[z].first, x.av[z].second);
        std::string avs; for (size_t z = 0; z < x.av.size(); ++z) avs += " " + q(x.av[z].first) + "=" + q(x.av[z].second);
        std::string tgs; for (size_t z = 0; z < x.tags.size(); ++z) tgs += (z ? "," : "") + x.tags[z];
        x.what = vname(L, x.from) + ">" + vname(L, x.to) + " [" + tgs + "] " + q(x.cat) + " " + q(x.text) + " " + numstr(x.score) + avs + " parts:" + pd;
        c.note("#" + str(L.e.size()) + " edge " + x.what);
        { bool merges = false; Lattice::InOutEdgesIterator ie = L.lat.allOutEdges(x.from);            // no circular derivations
          while (ie.hasNext() && !merges) { Lattice::EdgeDescriptor d = ie.next(); if (L.lat.getEdgeTarget(d) == x.to && d.isExplicit() && L.lat.getEdgeAnnotationItem(d) == it) for (size_t z = 0; z < x.links.size(); ++z) if (builtFrom(L.lat, L.e[x.links[z]].d, d)) merges = true; }
          if (merges) { c.note("  left out"); continue; } }
        try { x.d = L.lat.addEdge(x.from, x.to, it, L.ltc(x.tags), sb.build(), x.score); }
        catch (EdgeSelfReferenceException&) { c.note("  refused"); continue; }
        L.e.push_back(x);
    }
}
}
#endif

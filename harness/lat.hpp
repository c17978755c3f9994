// A model of the lattice kept in lockstep with the real one, and the monitor comparing them.
#ifndef VERIF_LAT_HPP
#define VERIF_LAT_HPP
#include "h.hpp"
#include "lattice.hpp"
namespace vf {
typedef std::set<std::string> Tags;
typedef std::map<std::string, std::string> AV;
inline std::string tagstr(const Tags& t) { std::string s; for (Tags::const_iterator i = t.begin(); i != t.end(); ++i) s += (s.empty() ? "" : ",") + *i; return s; }
struct MMask {                                   // any, or an alternative of non-empty conjunctions
    bool any; std::vector<Tags> alts;
    bool matches(const Tags& t) const {
        if (any) return true;
        for (size_t i = 0; i < alts.size(); ++i) if (std::includes(t.begin(), t.end(), alts[i].begin(), alts[i].end())) return true;
        return false;
    }
    std::string str() const { if (any) return "ANY"; std::string s; for (size_t i = 0; i < alts.size(); ++i) s += (i ? ";" : "") + tagstr(alts[i]); return s; }
};
struct MPart { std::vector<int> links; Tags tags; double score; int rule, tree; };
struct MEdge {
    int from, to; std::string cat, text; AV av; Tags tags; double score; std::vector<MPart> parts;
    Lattice::EdgeDescriptor d; bool implicit, wasImplicit; long order;
};
struct LatModel {
    AnnotationItemManager& aim; Lattice& lat;
    std::string text; std::vector<size_t> bnd; std::vector<int> loose; std::map<int, double> rank;
    std::vector<MEdge> e; long clock; int converted; bool otherSymbols;
    LatModel(AnnotationItemManager& a, Lattice& l) : aim(a), lat(l), clock(0), converted(0), otherSymbols(false) { bnd.push_back(0); }
    static Tags planes(const Tags& t) { Tags r; for (Tags::const_iterator i = t.begin(); i != t.end(); ++i) if (!i->empty() && (*i)[0] == '!') r.insert(*i); return r; }
    void retext(const std::string& t) { text = t; bnd = bounds(text); }
    double rk(int v) const { return v >= 0 ? v : rank.find(v)->second; }
    int find(int from, int to, const std::string& cat, const std::string& tx, const AV& av, const Tags& t) const {
        for (size_t i = 0; i < e.size(); ++i)
            if (e[i].from == from && e[i].to == to && e[i].cat == cat && e[i].text == tx && e[i].av == av && planes(e[i].tags) == planes(t)) return (int)i;
        return -1;
    }
    LayerTagCollection ltc(const Tags& t) { return lat.getLayerTagManager().createTagCollection(std::list<std::string>(t.begin(), t.end())); }
    LayerTagMask mask(const MMask& m, int how) {
        LayerTagManager& g = lat.getLayerTagManager();
        if (m.any) return g.anyTag();
        if (m.alts.size() == 1 && how % 3 == 0) return g.getMask(ltc(m.alts[0]));
        if (how % 3 == 1) {
            std::list<std::list<std::string> > l;
            for (size_t i = 0; i < m.alts.size(); ++i) l.push_back(std::list<std::string>(m.alts[i].begin(), m.alts[i].end()));
            return g.getAlternativeMaskFromTagNames(l);
        }
        return g.getMask(m.str());
    }
    bool reaches(int a, int b, std::set<int>& seen) const {
        if (a == b) return true;
        if (!seen.insert(a).second) return false;
        for (size_t p = 0; p < e[a].parts.size(); ++p) for (size_t k = 0; k < e[a].parts[p].links.size(); ++k) if (reaches(e[a].parts[p].links[k], b, seen)) return true;
        return false;
    }
    bool used(int x) const {
        for (size_t i = 0; i < e.size(); ++i) for (size_t p = 0; p < e[i].parts.size(); ++p) for (size_t k = 0; k < e[i].parts[p].links.size(); ++k) if (e[i].parts[p].links[k] == x) return true;
        return false;
    }
    // the model of a default symbol edge at position p
    void symbol(int p) {
        size_t k = std::lower_bound(bnd.begin(), bnd.end(), (size_t)p) - bnd.begin();
        int q2 = (int)bnd[k + 1];
        std::string s = text.substr(p, q2 - p);
        Tags t; t.insert("symbol");
        int x = find(p, q2, "'" + s, s, AV(), t);
        if (x >= 0) { // added again
            if (e[x].implicit) return;
            MPart mp; mp.tags = e[x].tags; mp.tags.insert("symbol"); mp.score = 0; mp.rule = mp.tree = -1;
            e[x].tags = mp.tags; if (e[x].score < 0) e[x].score = 0; e[x].parts.push_back(mp);
            return;
        }
        MEdge m; m.from = p; m.to = q2; m.cat = "'" + s; m.text = s; m.tags = t; m.score = 0; m.implicit = m.wasImplicit = true; m.order = clock++;
        bool found = false;
        Lattice::InOutEdgesIterator it = lat.allOutEdges(p);
        while (it.hasNext()) { Lattice::EdgeDescriptor d = it.next(); if (!d.isExplicit()) { m.d = d; found = true; } }
        if (!found) throw Violation("symbols", "no symbol edge at " + vf::str(p) + " after addSymbols");
        e.push_back(m);
    }
    void addSymbols(int a, int b) { lat.addSymbols(a, b); for (size_t i = 0; i + 1 < bnd.size(); ++i) if ((int)bnd[i] >= a && (int)bnd[i] < b) symbol((int)bnd[i]); }

    AnnotationItem item(const std::string& cat, const std::string& tx, const AV& av) {
        AnnotationItem it(cat, StringFrag(tx));
        for (AV::const_iterator i = av.begin(); i != av.end(); ++i) aim.setValue(it, i->first, i->second);
        return it;
    }
    Lattice::EdgeSequence seq(const std::vector<int>& links) {
        Lattice::EdgeSequence::Builder b(lat);
        for (size_t i = 0; i < links.size(); ++i) b.addEdge(e[links[i]].d);
        return b.build();
    }
    // returns the edge's id, or -1 when the addition has to be refused
    int add(Ctx& c, int from, int to, const std::string& cat, const std::string& tx, const AV& av, Tags tags, const std::vector<int>& links, double score, int rule, int tree, bool viaPartition = false, int pe = -1) {
        Tags given = tags;
        if (viaPartition) { Tags pl = planes(e[pe].tags); given.insert(pl.begin(), pl.end()); }
        Tags want = given;
        if (planes(want).empty()) for (size_t i = 0; i < links.size(); ++i) { Tags pl = planes(e[links[i]].tags); want.insert(pl.begin(), pl.end()); }
        int x = find(from, to, cat, tx, av, want);
        bool selfref = x >= 0 && std::find(links.begin(), links.end(), x) != links.end();
        bool loop = from == to, rev = from >= 0 && to >= 0 && from > to;
        Lattice::EdgeDescriptor d; std::string ex;
        try {
            if (viaPartition) d = lat.addPartitionToEdge(e[pe].d, ltc(tags), seq(links), score, rule, tree);
            else d = lat.addEdge(from, to, item(cat, tx, av), ltc(tags), seq(links), score, rule, tree);
        } catch (LoopEdgeException&) { ex = "loop"; } catch (ReversedEdgeException&) { ex = "reversed"; } catch (EdgeSelfReferenceException&) { ex = "selfref"; }
        std::string we = loop ? "loop" : rev ? "reversed" : selfref ? "selfref" : "";
        c.eq(ex, we, "refusal", "refusal of addEdge(" + vf::str(from) + "," + vf::str(to) + ")");
        if (!ex.empty()) return -1;
        if (x < 0) {
            MEdge m; m.from = from; m.to = to; m.cat = cat; m.text = tx; m.av = av; m.tags = want; m.score = score; m.d = d; m.order = clock++;
            m.implicit = m.wasImplicit = !d.isExplicit();
            if (m.implicit) { Tags s; s.insert("symbol"); c.expect(want == s && links.empty() && av.empty() && cat.size() > 1 && cat[0] == '\'', "implicit", "an edge carrying data became a default symbol edge"); }
            MPart p; p.links = links; p.tags = want; p.score = score; p.rule = rule; p.tree = tree; m.parts.push_back(p);
            if (m.implicit) m.parts.clear();
            e.push_back(m);
            return (int)e.size() - 1;
        }
        MEdge& m = e[x];
        Tags u = m.tags; u.insert(want.begin(), want.end());
        if (m.implicit) { if (d.isExplicit()) { m.implicit = false; m.order = clock++; ++converted; } }
        else c.expect(d == m.d, "merge", "adding an equal edge gave another edge");
        m.d = d; m.tags = u; if (score > m.score) m.score = score;
        bool circular = false; std::set<int> seen; for (size_t i = 0; i < links.size(); ++i) if (reaches(links[i], x, seen)) circular = true;
        if (circular) c.count("circular derivations");
        if (!m.implicit) { MPart p; if (!circular) p.links = links; p.tags = u; p.score = score; p.rule = rule; p.tree = tree; m.parts.push_back(p); }
        return x;
    }
    std::string show(int i) const { const MEdge& m = e[i]; return "#" + vf::str(i) + " " + vf::str(m.from) + "-" + vf::str(m.to) + " " + q(m.cat) + "/" + q(m.text) + " [" + tagstr(m.tags) + "]"; }
    int idOf(Lattice::EdgeDescriptor d) const { for (size_t i = 0; i < e.size(); ++i) if (e[i].d == d) return (int)i; return -1; }

    void checkEdge(Ctx& c, int i) {
        MEdge& m = e[i]; std::string w = "edge " + show(i) + ": ";
        AnnotationItem it = lat.getEdgeAnnotationItem(m.d);
        c.eq(it.getCategory(), m.cat, "category", w + "category");
        c.eq(lat.getAnnotationCategory(m.d), m.cat, "category", w + "category");
        c.eq(it.getText(), m.text, "text", w + "text");
        c.eq(lat.getAnnotationText(m.d), m.text, "text", w + "text");
        c.eq(lat.getAnnotationTextAsStringFrag(m.d).str(), m.text, "text", w + "text fragment");
        std::list<std::pair<std::string, std::string> > l = aim.getValues(it);
        AV got(l.begin(), l.end());
        c.expect(got == m.av && l.size() == m.av.size(), "attributes", w + "attributes differ");
        std::list<std::string> tn = lat.getLayerTagManager().getTagNames(lat.getEdgeLayerTags(m.d));
        c.eq(tagstr(Tags(tn.begin(), tn.end())), tagstr(m.tags), "tags", w + "tags");
        c.eq(lat.getEdgeSource(m.d), m.from, "source", w + "source");
        c.eq(lat.getEdgeTarget(m.d), m.to, "target", w + "target");
        c.eq(lat.getEdgeScore(m.d), m.score, "score", w + "score");
        c.eq(lat.isDiscarded(m.d), m.tags.count("discarded") > 0, "discarded", w + "discarded");
        if (m.from >= 0 && m.to >= 0) {
            c.eq(lat.getEdgeBeginIndex(m.d), m.from, "begin", w + "begin");
            c.eq(lat.getEdgeEndIndex(m.d), m.to, "end", w + "end");
            c.eq(lat.getEdgeLength(m.d), m.to - m.from, "edge-length", w + "length");
            c.eq(lat.getEdgeText(m.d), text.substr(m.from, m.to - m.from), "edge-text", w + "text of the stretch");
            c.eq(lat.getEdgeTextAsStringFrag(m.d).str(), text.substr(m.from, m.to - m.from), "edge-text", w + "text of the stretch");
        } else {
            bool t = false;
            try { lat.getEdgeLength(m.d); } catch (WrongVertexException&) { t = true; }
            c.expect(t, "edge-length", w + "length of an edge with a loose end");
        }
        if (!m.wasImplicit) {
            const std::list<Lattice::Partition>& ps = lat.getEdgePartitions(m.d);
            c.eq(ps.size(), m.parts.size(), "partitions", w + "number of partitions");
            size_t k = 0;
            for (std::list<Lattice::Partition>::const_iterator p = ps.begin(); p != ps.end(); ++p, ++k) {
                MPart& mp = m.parts[k];
                c.eq(p->getScore(), mp.score, "partition-score", w + "partition score");
                c.eq(p->getRuleId(), mp.rule, "partition-rule", w + "partition rule");
                c.eq(p->getTreeChoice(), mp.tree, "partition-tree", w + "partition tree choice");
                std::list<std::string> pt = lat.getLayerTagManager().getTagNames(p->getTagList());
                c.eq(tagstr(Tags(pt.begin(), pt.end())), tagstr(mp.tags), "partition-tags", w + "partition tags");
                checkSeq(c, p->getSequence(), mp.links, w);
            }
        }
    }
    void checkSeq(Ctx& c, const Lattice::EdgeSequence& s, const std::vector<int>& links, const std::string& w) {
        std::vector<int> got; std::string tx;
        Lattice::EdgeSequence::Iterator it(lat, s);
        while (it.hasNext()) got.push_back(idOf(it.next()));
        std::string a, b;
        for (size_t i = 0; i < got.size(); ++i) a += " " + vf::str(got[i]);
        for (size_t i = 0; i < links.size(); ++i) { b += " " + vf::str(links[i]); tx += e[links[i]].from >= 0 && e[links[i]].to >= 0 ? text.substr(e[links[i]].from, e[links[i]].to - e[links[i]].from) : std::string("@"); }
        c.eq(a, b, "sequence", w + "parts");
        c.eq(s.empty(), links.empty(), "sequence-empty", w + "empty()");
        c.eq(s.size(lat), links.size(), "sequence-size", w + "size()");
        c.eq(lat.getSequenceText(s), tx, "sequence-text", w + "getSequenceText");
        c.eq(lat.getSequenceTextAsStringFrag(s).str(), tx, "sequence-text", w + "getSequenceTextAsStringFrag");
        if (!links.empty()) {
            c.eq(idOf(s.firstEdge(lat)), links.front(), "sequence-first", w + "firstEdge");
            c.eq(idOf(s.lastEdge(lat)), links.back(), "sequence-last", w + "lastEdge");
            size_t n = c.r.below(links.size());
            c.eq(idOf(s.nthEdge(lat, n)), links[n], "sequence-nth", w + "nthEdge " + vf::str(n));
        }
    }
    // compares an iterated list with the model's expectation: same edges, each once, same order of explicit ones
    void cmp(Ctx& c, const std::vector<int>& got, const std::vector<int>& want, const std::string& key, const std::string& w) {
        c.count("monitor_checks"); c.count("edges_compared", (long)want.size());
        std::vector<int> a(got), b(want);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        std::string A, B;
        if (a != b) {
            for (size_t i = 0; i < a.size(); ++i) A += " " + vf::str(a[i]);
            for (size_t i = 0; i < b.size(); ++i) B += " " + vf::str(b[i]);
            c.fail(key, w + ": got edges" + A + ", want" + B);
        }
        long last = -1;
        for (size_t i = 0; i < got.size(); ++i) {
            const MEdge& m = e[got[i]];
            if (m.wasImplicit) continue;
            if (m.order <= last) c.fail(key + "-order", w + ": the edges are not in the order they were added");
            last = m.order;
        }
    }
    std::vector<int> want(int v, bool out, const MMask& m) const {
        std::vector<int> r;
        for (size_t i = 0; i < e.size(); ++i) if ((out ? e[i].from : e[i].to) == v && m.matches(e[i].tags)) r.push_back((int)i);
        return r;
    }
    void checkVertex(Ctx& c, int v, const MMask& m, int how) {
        LayerTagMask lm = mask(m, how);
        for (int dir = 0; dir < 2; ++dir) {
            bool out = dir == 0;
            Lattice::InOutEdgesIterator it = out ? (m.any && how % 2 ? lat.allOutEdges(v) : lat.outEdges(v, lm)) : (m.any && how % 2 ? lat.allInEdges(v) : lat.inEdges(v, lm));
            std::vector<int> got; while (it.hasNext()) got.push_back(idOf(it.next()));
            std::vector<int> w = want(v, out, m);
            std::string ctx2 = std::string(out ? "out" : "in") + " edges of " + vf::str(v) + " for " + m.str();
            cmp(c, got, w, out ? "outEdges" : "inEdges", ctx2);
            bool thrown = false; int f = -2;
            try { f = idOf(out ? lat.firstOutEdge(v, lm) : lat.firstInEdge(v, lm)); } catch (NoEdgeException&) { thrown = true; }
            c.eq(thrown, w.empty(), "first", "first of " + ctx2);
            if (!thrown) c.eq(f, got[0], "first", "first of " + ctx2);
        }
    }
    void checkSorted(Ctx& c, const MMask& m, int how, bool bySource) {
        LayerTagMask lm = mask(m, how);
        std::vector<int> got;
        if (bySource) { Lattice::EdgesSortedBySourceIterator it = m.any && how % 2 ? lat.allEdgesSortedBySource() : lat.edgesSortedBySource(lm); while (it.hasNext()) got.push_back(idOf(it.next())); }
        else { Lattice::EdgesSortedByTargetIterator it = m.any && how % 2 ? lat.allEdgesSortedByTarget() : lat.edgesSortedByTarget(lm); while (it.hasNext()) got.push_back(idOf(it.next())); }
        std::string w = std::string("edges sorted by ") + (bySource ? "source" : "target") + " for " + m.str();
        std::vector<int> wa; for (size_t i = 0; i < e.size(); ++i) if (m.matches(e[i].tags)) wa.push_back((int)i);
        std::vector<int> a(got), b(wa); std::sort(a.begin(), a.end());
        c.expect(a == b, "sorted", w + ": got " + vf::str(got.size()) + " edges, want " + vf::str(wa.size()));
        std::set<int> done; int cur = 0; bool have = false; int lastText = -1;
        for (size_t i = 0; i < got.size(); ++i) {
            int v = bySource ? e[got[i]].from : e[got[i]].to;
            if (!have || v != cur) {
                c.expect(done.insert(v).second, "sorted-group", w + ": vertex " + vf::str(v) + " comes up twice");
                cur = v; have = true;
                if (v >= 0) { c.expect(v > lastText, "sorted-order", w + ": position " + vf::str(v) + " after " + vf::str(lastText)); lastText = v; }
            }
        }
        // an edge's source is never listed after its target
        std::map<int, size_t> first;
        for (size_t i = 0; i < got.size(); ++i) { int v = bySource ? e[got[i]].from : e[got[i]].to; if (!first.count(v)) first[v] = i; }
        for (size_t i = 0; i < e.size(); ++i)
            if (first.count(e[i].from) && first.count(e[i].to))
                c.expect(first[e[i].from] < first[e[i].to], "sorted-topological", w + ": vertex " + vf::str(e[i].to) + " before its predecessor " + vf::str(e[i].from));
    }
    void checkPath(Ctx& c, int v, const MMask& m, int how) {
        std::vector<int> w; int x = v;
        for (;;) {
            int best = -1;
            std::vector<int> o = want(x, true, m);
            for (size_t i = 0; i < o.size(); ++i) {
                if (best < 0) { best = o[i]; continue; }
                const MEdge &a = e[o[i]], &b = e[best];
                if (b.implicit || (!a.implicit && a.order > b.order)) best = o[i];
            }
            if (best < 0) break;
            w.push_back(best); x = e[best].to;
        }
        Lattice::VertexDescriptor vd = v;
        Lattice::EdgeSequence s = lat.getPath(vd, mask(m, how));
        c.eq(vd, x, "path-end", "end of the path from " + vf::str(v) + " for " + m.str());
        std::vector<int> got; Lattice::EdgeSequence::Iterator it(lat, s); while (it.hasNext()) got.push_back(idOf(it.next()));
        if (!resolvable(w)) return;
        c.expect(got == w, "path", "the path from " + vf::str(v) + " for " + m.str() + " has other edges");
    }
    // a run of symbol edges is stored as a stretch of text, which names the first symbol edge of each position
    bool resolvable(const std::vector<int>& links) const {
        for (size_t i = 0; i < links.size(); ++i) {
            const MEdge& m = e[links[i]];
            if (m.wasImplicit && !m.implicit) return false;
        }
        return true;
    }
    void checkRelations(Ctx& c, int i, const MMask& m, int how) {
        LayerTagMask lm = mask(m, how);
        std::vector<int> wantC, gotC;
        std::vector<int> o = want(e[i].from, true, m);
        std::vector<Lattice::EdgeDescriptor> ch = lat.getChildren(e[i].d, lm);
        for (size_t k = 0; k < ch.size(); ++k) gotC.push_back(idOf(ch[k]));
        for (size_t k = 0; k < o.size(); ++k) if (e[o[k]].to == e[i].to)
            for (size_t p = 0; p < e[o[k]].parts.size(); ++p) for (size_t z = 0; z < e[o[k]].parts[p].links.size(); ++z) if (e[o[k]].parts[p].links[z] == i) wantC.push_back(o[k]);
        std::sort(gotC.begin(), gotC.end()); std::sort(wantC.begin(), wantC.end());
        c.expect(gotC == wantC, "children", "getChildren of " + show(i) + " for " + m.str());
        int wp = -1, gp = -1;
        for (size_t p = 0; p < e[i].parts.size() && wp < 0; ++p) for (size_t z = 0; z < e[i].parts[p].links.size() && wp < 0; ++z) if (m.matches(e[e[i].parts[p].links[z]].tags)) wp = e[i].parts[p].links[z];
        boost::optional<Lattice::EdgeDescriptor> pa = lat.getParent(e[i].d, lm);
        if (pa) gp = idOf(*pa);
        c.eq(gp, wp, "parent", "getParent of " + show(i) + " for " + m.str());
    }
    void checkAll(Ctx& c, Rng& r, const std::vector<MMask>& masks) {
        c.eq(lat.getAllText(), text, "all-text", "text of the lattice");
        for (size_t i = 0; i < e.size(); ++i) checkEdge(c, (int)i);
        std::vector<int> vs(bnd.begin(), bnd.end()); vs.insert(vs.end(), loose.begin(), loose.end());
        for (size_t i = 0; i < vs.size(); ++i) for (int k = 0; k < 2; ++k) checkVertex(c, vs[i], r.pick(masks), r.range(0, 5));
        for (int k = 0; k < 3; ++k) checkSorted(c, r.pick(masks), r.range(0, 5), r.chance(50));
        std::map<std::pair<int, int>, int> cnt;
        for (size_t i = 0; i < e.size(); ++i) ++cnt[std::make_pair(e[i].from, e[i].to)];
        for (int k = 0; k < 6; ++k) { int a = r.pick(vs), b = r.pick(vs); c.eq(lat.countEdges(a, b), cnt[std::make_pair(a, b)], "countEdges", "countEdges(" + vf::str(a) + "," + vf::str(b) + ")"); }
        for (std::map<std::pair<int, int>, int>::iterator i = cnt.begin(); i != cnt.end(); ++i) c.eq(lat.countEdges(i->first.first, i->first.second), i->second, "countEdges", "countEdges(" + vf::str(i->first.first) + "," + vf::str(i->first.second) + ")");
        c.eq(lat.countAllVertices(), (int)(bnd.size() + loose.size()), "countAllVertices", "countAllVertices");
        // per-vertex view: the vertices in use, each once
        std::set<int> inuse, seen; for (size_t i = 0; i < e.size(); ++i) { inuse.insert(e[i].from); inuse.insert(e[i].to); }
        Lattice::VertexIterator vi(lat); int last = -1;
        while (vi.hasNext()) { int v = vi.next(); c.expect(seen.insert(v).second, "vertices", "vertex " + vf::str(v) + " comes up twice"); if (v >= 0) { c.expect(v > last, "vertices", "vertices out of order"); last = v; }
            c.expect(v < 0 ? std::find(loose.begin(), loose.end(), v) != loose.end() : std::binary_search(bnd.begin(), bnd.end(), (size_t)v), "vertices", "no such vertex: " + vf::str(v)); }
        for (std::set<int>::iterator i = inuse.begin(); i != inuse.end(); ++i) c.expect(seen.count(*i), "vertices", "vertex " + vf::str(*i) + " has edges but is left out");
        for (size_t i = 0; i < loose.size(); ++i) c.expect(seen.count(loose[i]), "vertices", "loose vertex left out");
        Lattice::VertexIterator va(lat, false); size_t n = 0; while (va.hasNext()) { va.next(); ++n; }
        c.eq(n, bnd.size() + loose.size(), "vertices", "number of all vertices");
        if (!e.empty()) for (int k = 0; k < 4; ++k) { checkRelations(c, (int)r.below(e.size()), r.pick(masks), r.range(0, 5)); }
        for (int k = 0; k < 3; ++k) checkPath(c, r.pick(vs), r.pick(masks), r.range(0, 5));
    }
};
inline std::vector<MMask> mask_pool(Rng& r, const std::vector<std::string>& tags, int n) {
    std::vector<MMask> v; MMask a; a.any = true; v.push_back(a);
    for (int i = 0; i < n; ++i) {
        MMask m; m.any = false;
        for (int k = r.chance(60) ? 1 : r.range(2, 3); k > 0; --k) { Tags t; for (int j = r.chance(70) ? 1 : 2; j > 0; --j) t.insert(r.pick(tags)); m.alts.push_back(t); }
        v.push_back(m);
    }
    return v;
}
}
#endif

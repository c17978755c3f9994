// C02: text, character edges, positions and corrections of the lattice against the plain text.
#include "h.hpp"
#include "lattice.hpp"
#include <memory>
namespace vf {
void setup(const std::string&) {}
struct Reach {
    Lattice& lat; LayerTagMask mask; std::set<std::pair<int, size_t> > seen; const std::string& t; size_t steps;
    Reach(Lattice& l, const std::string& s) : lat(l), mask(l.getSymbolMask()), t(s), steps(0) {}
    bool go(int v, size_t pos, bool toEnd, int endv) {       // a path of symbol edges from v spells t[pos:]
        if (pos == t.size()) { if (!toEnd || v == endv) return true; if (lat.isLooseVertex(v) && !lat.outEdges(v, mask).hasNext()) return true; }
        if (!seen.insert(std::make_pair(v, pos)).second) return false;
        Lattice::InOutEdgesIterator it = lat.outEdges(v, mask);
        while (it.hasNext()) {
            ++steps;
            Lattice::EdgeDescriptor d = it.next();
            std::string s = lat.getAnnotationText(d), cat = lat.getAnnotationCategory(d);
            if (cat != "'" + s || s.empty()) continue;
            if (t.compare(pos, s.size(), s) == 0 && go(lat.getEdgeTarget(d), pos + s.size(), toEnd, endv)) return true;
        }
        return false;
    }
};
static bool spells(Lattice& lat, const std::string& t, int from, int end) { Reach r(lat, t); return r.go(from, 0, true, end); }

struct W {
    AnnotationItemManager aim; Lattice lat; std::string text; std::set<int> sym;    // positions with a character edge
    std::vector<std::pair<int, int> > cover; bool fresh;
    W() : lat(aim), fresh(true) {}
};
static void verify(Ctx& c, W& w, const char* when) {
    Lattice& lat = w.lat; const std::string& t = w.text; std::vector<size_t> b = bounds(t);
    std::string a = std::string(" after ") + when;
    c.eq(lat.getAllText(), t, "all-text", "text" + a);
    c.eq(lat.getLastVertex() , (int)t.size(), "last-vertex", "last vertex" + a);
    c.eq(lat.getFirstVertex(), 0, "first-vertex", "first vertex" + a);
    c.eq(lat.countAllVertices(), (int)b.size(), "countAllVertices", "number of vertices" + a);
    for (size_t i = 0; i < b.size(); ++i) {
        bool has = i + 1 < b.size() && w.sym.count((int)b[i]);
        for (int how = 0; how < 2; ++how) {
            Lattice::InOutEdgesIterator it = how ? lat.outEdges(b[i], lat.getSymbolMask()) : lat.allOutEdges(b[i]);
            int n = 0;
            while (it.hasNext()) {
                Lattice::EdgeDescriptor d = it.next();
                if (lat.getEdgeLayerTags(d) != lat.getSymbolTag()) continue;
                ++n;
                std::string ch = has ? t.substr(b[i], b[i + 1] - b[i]) : "";
                c.expect(has, "symbols", "unexpected character edge at " + vf::str(b[i]) + a);
                c.eq(lat.getAnnotationCategory(d), "'" + ch, "symbol-category", "category of the character edge at " + vf::str(b[i]) + a);
                c.eq(lat.getAnnotationText(d), ch, "symbol-text", "annotation text of the character edge" + a);
                c.eq(lat.getEdgeText(d), ch, "symbol-text", "text of the character edge" + a);
                c.eq(lat.getEdgeTextAsStringFrag(d).str(), ch, "symbol-text", "text of the character edge" + a);
                c.eq(lat.getEdgeBeginIndex(d), (int)b[i], "symbol-begin", "begin" + a); c.eq(lat.getEdgeEndIndex(d), (int)b[i + 1], "symbol-end", "end" + a);
                c.eq(lat.getEdgeLength(d), (int)ch.size(), "symbol-length", "length" + a);
                c.eq(lat.getEdgeSource(d), (int)b[i], "symbol-begin", "source" + a); c.eq(lat.getEdgeTarget(d), (int)b[i + 1], "symbol-end", "target" + a);
                bool covered = false; for (size_t k = 0; k < w.cover.size(); ++k) if (w.cover[k].first <= (int)b[i] && w.cover[k].second > (int)b[i]) covered = true;
                c.eq(lat.isEdgeHidden(d), covered, "symbol-hidden", "hidden flag of the character edge at " + vf::str(b[i]) + a);
            }
            c.eq(n, has ? 1 : 0, "symbols", "number of character edges from " + vf::str(b[i]) + a);
            Lattice::InOutEdgesIterator in = how ? lat.inEdges(b[i], lat.getSymbolMask()) : lat.allInEdges(b[i]);
            n = 0; while (in.hasNext()) { Lattice::EdgeDescriptor d = in.next(); if (lat.getEdgeLayerTags(d) == lat.getSymbolTag()) { ++n; c.expect(i > 0 && lat.getEdgeSource(d) == (int)b[i - 1], "symbols-in", "source of the character edge into " + vf::str(b[i]) + a); } }
            c.eq(n, i > 0 && w.sym.count((int)b[i - 1]) ? 1 : 0, "symbols-in", "number of character edges into " + vf::str(b[i]) + a);
        }
        c.eq(lat.getVertexForRawCharIndex(b[i]), (int)b[i], "vertex", "vertex for position");
        c.eq((int)lat.getVertexRawCharIndex(b[i]), (int)b[i], "vertex", "position of vertex");
    }
    for (int k = 0; k < 2; ++k) {
        bool thrown = false;
        try { lat.getVertexForRawCharIndex(k ? -1 - (int)c.r.below(5) : (int)t.size() + 1 + (int)c.r.below(5)); } catch (NoVertexException&) { thrown = true; }
        c.expect(thrown, "vertex-range", "a position outside the text is accepted");
    }
    // the path of character edges from each run's beginning spells it
    if (!t.empty()) {
        int p = (int)b[c.r.below(b.size())];
        Lattice::VertexDescriptor v = p; Lattice::EdgeSequence s = lat.getPath(v, lat.getSymbolMask());
        size_t k = std::lower_bound(b.begin(), b.end(), (size_t)p) - b.begin(), e = k;
        while (e + 1 < b.size() && w.sym.count((int)b[e])) ++e;
        c.eq(v, (int)b[e], "symbol-path", "end of the character path from " + vf::str(p) + a);
        c.eq(lat.getSequenceText(s), t.substr(p, b[e] - p), "symbol-path", "text of the character path from " + vf::str(p) + a);
        c.eq(lat.getSequenceTextAsStringFrag(s).str(), t.substr(p, b[e] - p), "symbol-path", "text fragment of the character path" + a);
        c.eq(s.size(lat), e - k, "symbol-path", "length of the character path" + a);
        if (e > k) { size_t n = c.r.below(e - k); c.eq(lat.getEdgeBeginIndex(s.nthEdge(lat, n)), (int)b[k + n], "symbol-path-nth", "nth edge of the character path" + a);
            c.eq(lat.getEdgeEndIndex(s.lastEdge(lat)), (int)b[e], "symbol-path-last", "last edge of the character path" + a); }
    }
    c.count("characters", (long)b.size());
}
static void text_case(Ctx& c) {
    Rng& r = c.r; c.kind = "text"; W w; Lattice& lat = w.lat;
    if (r.chance(20)) { w.text = rand_text(r, 10); }
    std::unique_ptr<Lattice> l2;
    if (!w.text.empty()) { lat.appendString(w.text); c.note("start " + q(w.text)); }
    int ops = r.range(1, 12);
    for (int o = 0; o < ops; ++o) {
        std::vector<size_t> b = bounds(w.text);
        switch (r.range(0, 5)) {
            case 0: { std::string s = rand_text(r, 6); lat.appendString(s); w.text += s; c.note("append " + q(s)); break; }
            case 1: case 2: { std::string s = rand_text(r, 8); size_t at = w.text.size(); lat.appendStringWithSymbols(s); w.text += s; c.note("appendWithSymbols " + q(s));
                std::vector<size_t> n = bounds(w.text); for (size_t i = 0; i + 1 < n.size(); ++i) if (n[i] >= at) w.sym.insert((int)n[i]); break; }
            case 3: { size_t x = r.below(b.size()), y = x + r.below(b.size() - x); lat.addSymbols(b[x], b[y]); c.note("addSymbols " + vf::str(b[x]) + "-" + vf::str(b[y]));
                for (size_t i = x; i < y; ++i) w.sym.insert((int)b[i]); break; }
            default: {
                if (b.size() < 2) break;
                size_t x = r.below(b.size() - 1), y = x + 1 + r.below(b.size() - 1 - x);
                std::string tx = r.chance(50) ? w.text.substr(b[x], b[y] - b[x]) : "zz";
                c.note("edge " + vf::str(b[x]) + "-" + vf::str(b[y]));
                Lattice::EdgeSequence::Builder sb(lat);
                bool all = true; for (size_t i = x; i < y; ++i) if (!w.sym.count((int)b[i])) all = false;
                if (all && r.chance(60)) for (size_t i = x; i < y; ++i) sb.addEdge(lat.firstOutEdge(b[i], lat.getSymbolMask()));
                else all = false;
                AnnotationItem it("T", r.chance(50) ? StringFrag(lat.getAllText(), b[x], b[y] - b[x]) : StringFrag(w.text, b[x], b[y] - b[x]));
                (void)tx;
                Lattice::EdgeDescriptor d = lat.addEdge(b[x], b[y], it.getText() == "" ? AnnotationItem("T") : AnnotationItem("T", StringFrag(it.getText())), lat.getLayerTagManager().createSingletonTagCollection(r.chance(50) ? "token" : "word"), sb.build());
                w.cover.push_back(std::make_pair((int)b[x], (int)b[y]));
                std::string want = w.text.substr(b[x], b[y] - b[x]);
                c.eq(lat.getEdgeText(d), want, "edge-text", "text of the stretch");
                c.eq(lat.getAnnotationText(d), want, "annotation-text", "annotation text");
                c.eq(lat.getEdgeBeginIndex(d), (int)b[x], "edge-begin", "begin"); c.eq(lat.getEdgeEndIndex(d), (int)b[y], "edge-end", "end"); c.eq(lat.getEdgeLength(d), (int)(b[y] - b[x]), "edge-length", "length");
                if (all) {
                    const Lattice::Partition& p = lat.getEdgePartitions(d).back();
                    c.eq(lat.getPartitionText(p), want, "partition-text", "text of the parts");
                    c.eq(p.getSequence().size(lat), y - x, "partition-size", "number of parts");
                    c.eq(lat.getEdgeBeginIndex(p.firstEdge(lat)), (int)b[x], "partition-first", "first part");
                    c.eq(lat.getEdgeEndIndex(p.lastEdge(lat)), (int)b[y], "partition-last", "last part");
                }
            }
        }
        if (r.chance(40)) verify(c, w, "an operation");
    }
    verify(c, w, "all operations");
    c.nontrivial = w.text.size() > 1;
}
struct Corr { size_t a, b; std::string ins; };
static void corr_case(Ctx& c) {
    Rng& r = c.r; c.kind = "corrections"; W w; Lattice& lat = w.lat;
    w.text = rand_text(r, 14); lat.appendStringWithSymbols(w.text); c.note("text " + q(w.text));
    std::vector<size_t> b = bounds(w.text); size_t n = b.size() - 1;
    std::vector<Corr> cs; size_t pos = 0;
    int tries = r.range(1, 4);
    bool endIns = false;
    // corrections of separate stretches; each takes the character after it as well
    std::vector<Corr> plan;
    for (int k = 0; k < tries && pos <= n; ++k) {
        Corr x; x.a = pos + (r.chance(60) ? 0 : r.below(n - pos + 1)); x.b = x.a + (r.chance(40) ? 0 : r.below(n - x.a + 1));
        x.ins = r.chance(30) ? "" : rand_text(r, 5);
        plan.push_back(x); pos = x.b + 2;
    }
    if (r.chance(50)) std::reverse(plan.begin(), plan.end());
    for (size_t k = 0; k < plan.size(); ++k) {
        Corr x = plan[k]; int op = r.range(0, 2);
        if (op == 0) x.b = x.a;                       // insert
        if (op == 1) x.ins.clear();                   // erase
        bool ok = true; std::ostringstream d;
        std::vector<size_t> ib = bounds(x.ins);
        try {
            if (op == 0) { d << "insert at " << b[x.a] << " " << q(x.ins); c.note(d.str()); lat.correctionInsert(b[x.a], x.ins); }
            else if (op == 1) { d << "erase " << b[x.a] << "-" << b[x.b]; c.note(d.str()); lat.correctionErase(b[x.a], b[x.b]); }
            else { d << "replace " << b[x.a] << "-" << b[x.b] << " " << q(x.ins); c.note(d.str()); lat.correctionReplace(b[x.a], b[x.b], x.ins); }
        } catch (WrongVertexException&) { ok = false; }
        // erasing up to the end of the text is refused (nothing follows to be put in its place)
        bool erasesTail = op != 0 && x.b == n && x.a < x.b && ib.size() - 1 < x.b - x.a;
        c.eq(ok, !erasesTail, "refusal", "correction accepted");
        if (ok) cs.push_back(x);
        (void)endIns;
    }
    std::sort(cs.begin(), cs.end(), [](const Corr& p, const Corr& s) { return p.a < s.a; });
    c.eq(lat.getAllText(), w.text, "all-text", "text after corrections");
    std::string plain = w.text;
    c.expect(spells(lat, plain, 0, (int)w.text.size()), "original-path", "the path of the original text is lost");
    for (unsigned m = 1; m < (1u << cs.size()); ++m) {        // any subset of them
        std::string t; size_t p = 0;
        for (size_t k = 0; k < cs.size(); ++k) if (m >> k & 1) { t += w.text.substr(p, b[cs[k].a] - p) + cs[k].ins; p = b[cs[k].b]; }
        t += w.text.substr(p);
        c.expect(spells(lat, t, 0, (int)w.text.size()), "corrected-path", "no path of character edges spells " + q(t));
        c.count("corrected_paths");
    }
    c.nontrivial = !cs.empty();
}
void run_case(Ctx& c) { if (c.index % 2) corr_case(c); else text_case(c); }
}
VF_MAIN

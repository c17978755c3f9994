// C12: what the simple and the bracketing writer print, against the edges of the lattice.
#include "iterw.hpp"
#include "simple_lattice_writer.hpp"
#include "bracketing_lattice_writer.hpp"
namespace vf {
void setup(const std::string&) {}
static void simple(Ctx& c) {
    Rng& r = c.r; c.kind = "simple"; RLat L; wlattice(c, L, true); long sel = 0;
    for (int k = 0; k < 3; ++k) {
        WOpts o; std::string mask; wopts(c, o, mask); bool two = o.handled.size() > 1;
        static const char* ss[] = {"\n", "|", " ", "", ";;", "ż", "\t"};
        std::string sep = ss[r.below(7)], alt = ss[r.below(7)]; std::map<std::string, std::string> gs;
        if (two) { sep = "\x01s\x02"; alt = "\x01v\x02"; }
        for (size_t i = 0; i < o.handled.size(); ++i) gs[o.handled[i]] = two ? "\x01g" + str(i) + "\x02" : ss[r.below(7)];
        c.note("separators " + q(sep) + " " + q(alt) + (gs.size() ? " " + q(gs.begin()->second) : ""));
        SimpleLatticeWriter w(o.linear, o.noAlts, o.withBlank, mask, sep, alt, gs, o.fallback); std::ostringstream out; w.writeLattice(L.lat, out);
        bool any; std::vector<WGroup> g = expectItems(L.lat, o, any); std::string want;
        std::vector<std::string> flat;
        for (size_t i = 0; i < g.size(); ++i) {
            if (i && gs.size()) want += gs.begin()->second;
            for (size_t z = 0; z < g[i].el.size(); ++z) { if (z || (i && gs.empty())) want += sep; for (size_t y = 0; y < g[i].el[z].size(); ++y) { want += (y ? alt : "") + g[i].el[z][y].put(); flat.push_back(g[i].el[z][y].put()); } }
        }
        want += "\n"; c.count("outputs"); c.count("elements_compared", (long)flat.size()); sel += flat.size();
        if (!two) c.eq(out.str(), want, "simple", "simple writer");
        else {                                             // between the elements nothing but separators, at least one of them
            std::string s = out.str(); std::vector<std::string> got; std::string cur; bool first = true; size_t at = 0; c.expect(s.size() && s[s.size() - 1] == '\n', "simple-end", "the final newline"); s.erase(s.size() - 1);
            // elements may hold the separator bytes; walk along the expected ones
            for (size_t i = 0; i < flat.size(); ++i) { size_t seps = 0; for (;;) { bool hit = false; std::string xs[] = {sep, alt, "\x01g0\x02", "\x01g1\x02"}; for (int z = 0; z < 4; ++z) if (s.compare(at, xs[z].size(), xs[z]) == 0) { at += xs[z].size(); ++seps; hit = true; break; } if (!hit) break; } c.expect(first ? seps == 0 : seps >= 1, "simple-two", "separators before element " + str(i) + " of " + q(s)); first = false; c.expect(s.compare(at, flat[i].size(), flat[i]) == 0, "simple-two", "element " + str(i) + " is not " + q(flat[i]) + " in " + q(s)); at += flat[i].size(); }
            c.expect(at == s.size(), "simple-two", "something after the last element: " + q(s));
        }
    }
    c.nontrivial = sel >= 3;
}
struct BE { int f, t; std::string cat, text; std::set<std::string> tags; std::map<std::string, std::string> av; double score; Lattice::EdgeDescriptor d; bool hasParent; Lattice::EdgeDescriptor parent; };
static std::string join(const std::set<std::string>& s, const std::string& sep) { std::string r; for (std::set<std::string>::const_iterator i = s.begin(); i != s.end(); ++i) r += (i == s.begin() ? "" : sep) + *i; return r; }
static const std::string O1 = "\x02", O2 = "\x03", C1 = "\x04", C2 = "\x05";
static void bracketing(Ctx& c) {
    Rng& r = c.r; c.kind = "bracketing"; RLat L; wlattice(c, L, false);
    std::string text = L.text; for (size_t i = 0; i < text.size(); ++i) if (text[i] >= 1 && text[i] <= 5) return;
    for (size_t i = 0; i < L.e.size(); ++i) for (size_t k = 0; k < L.e[i].text.size(); ++k) if (L.e[i].text[k] >= 1 && L.e[i].text[k] <= 5) return;
    std::vector<Lattice::EdgeDescriptor> all; { Dumper d(L.lat); all = d.all(); }
    long shown = 0;
    for (int k = 0; k < 3; ++k) {
        bool collapse = r.chance(60), sym = r.chance(50), skipBlank = r.chance(60), dis = r.chance(20);
        std::vector<std::string> filter, only, attrs; static const char* tg[] = {"token", "lemma", "parse", "frag", "segment", "symbol"};
        if (r.chance(60)) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) filter.push_back(tg[r.below(6)]); }
        if (r.chance(40)) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) only.push_back(tg[r.below(6)]); }
        if (r.chance(30)) { attrs.push_back("pos"); if (r.chance(50)) attrs.push_back("R"); }
        struct P { const char* p; int kind; }; static const P pats[] = {{"%T", 0}, {"%c", 1}, {"%T %c", 2}, {"%t", 3}, {"%c(%A)", 4}, {"%a[pos]|%c", 5}, {"%s/%c", 6}, {"%T,%c,%t,%A,%s", 7}, {"100%%%", 8}, {"%T:%*[;][%c]", 9}, {"%c:%*<, ><%t/%T>", 10}, {"%r%c", 1}, {"%x%c", 11}};
        P op = pats[r.below(13)], cp = pats[r.below(9)]; if (op.kind >= 9 && op.kind <= 10) { collapse = true; cp = pats[8]; }
        std::string ts = r.chance(70) ? "," : " ", aps = r.chance(70) ? "," : ";", avs = r.chance(70) ? "=" : "→";
        c.note(std::string("brackets ") + op.p + " / " + cp.p + (collapse ? "" : " no-collapse") + (sym ? "" : " skip-symbol-edges") + (skipBlank ? "" : " with-blank") + (dis ? " disambig" : "") + " tags " + vf::join(std::set<std::string>(filter.begin(), filter.end()), "+") + " show " + vf::join(std::set<std::string>(only.begin(), only.end()), "+") + (attrs.empty() ? "" : " attributes pos.."));
        BracketingLatticeWriter w(O1 + op.p + O2, C1 + cp.p + C2, ts, only, filter, aps, avs, attrs, sym, skipBlank, collapse, dis);
        std::ostringstream os; w.writeLattice(L.lat, os); std::string out = os.str(); c.note(q(out, 3000)); c.count("outputs");
        // the edges that get brackets
        std::vector<BE> be; std::set<std::string> onlys(only.begin(), only.end()), as(attrs.begin(), attrs.end());
        for (size_t i = 0; i < all.size(); ++i) {
            Lattice::EdgeDescriptor d = all[i]; if (L.lat.isDiscarded(d)) continue; BE e; e.d = d;
            AnnotationItem a = L.lat.getEdgeAnnotationItem(d); e.cat = a.getCategory(); e.text = a.getText(); e.score = L.lat.getEdgeScore(d);
            std::list<std::string> tl = L.lat.getLayerTagManager().getTagNames(L.lat.getEdgeLayerTags(d)); std::set<std::string> t(tl.begin(), tl.end());
            if (skipBlank && t.count("token") && e.cat == "B") continue;
            if (!sym && t.size() == 1 && t.count("symbol")) continue;
            bool f = filter.empty(); for (size_t z = 0; z < filter.size(); ++z) if (t.count(filter[z])) f = true; if (!f) continue;
            for (std::set<std::string>::iterator z = t.begin(); z != t.end(); ++z) if (onlys.empty() || onlys.count(*z)) e.tags.insert(*z);
            std::map<std::string, std::string> m = L.aim.getAVMap(a); for (std::map<std::string, std::string>::iterator z = m.begin(); z != m.end(); ++z) if (as.empty() || as.count(z->first)) e.av.insert(*z);
            boost::optional<Lattice::EdgeDescriptor> pr; const std::list<Lattice::Partition>& ps = L.lat.getEdgePartitions(d);
            for (std::list<Lattice::Partition>::const_iterator p = ps.begin(); p != ps.end() && !pr; ++p) { Lattice::EdgeSequence::Iterator it(L.lat, p->getSequence()); if (it.hasNext()) pr = it.next(); }
            e.hasParent = bool(pr); if (pr) e.parent = *pr;
            e.f = L.lat.getEdgeSource(d); e.t = L.lat.getEdgeTarget(d);
            if (L.lat.isLooseVertex(e.f)) e.f = pr && !L.lat.isLooseVertex(L.lat.getEdgeSource(*pr)) ? L.lat.getEdgeSource(*pr) : -1;
            if (L.lat.isLooseVertex(e.t)) e.t = pr && !L.lat.isLooseVertex(L.lat.getEdgeTarget(*pr)) ? L.lat.getEdgeTarget(*pr) : -1;
            if (e.f < 0 || e.t < 0 || e.f >= e.t) continue;
            be.push_back(e);
        }
        struct Pr {
            static std::string one(const P& p, const BE& e, const std::vector<BE>& be, const std::string& ts, const std::string& aps, const std::string& avs) {
                std::string T = vf::join(e.tags, ts), A; for (std::map<std::string, std::string>::const_iterator z = e.av.begin(); z != e.av.end(); ++z) A += (A.empty() ? "" : aps) + z->first + avs + z->second;
                std::ostringstream sc; sc << e.score; std::set<std::string> j;
                switch (p.kind) {
                    case 0: return T; case 1: return e.cat; case 2: return T + " " + e.cat; case 3: return e.text; case 4: return e.cat + "(" + A + ")";
                    case 5: return (e.av.count("pos") ? e.av.find("pos")->second : std::string()) + "|" + e.cat; case 6: return sc.str() + "/" + e.cat;
                    case 7: return T + "," + e.cat + "," + e.text + "," + A + "," + sc.str(); case 8: return "100%%%"; case 11: return "%x" + e.cat;
                    case 9: for (size_t i = 0; i < be.size(); ++i) if (be[i].f == e.f && be[i].t == e.t && (e.tags.empty() || be[i].tags == e.tags)) j.insert(be[i].cat); return T + ":" + vf::join(j, ";");
                    default: for (size_t i = 0; i < be.size(); ++i) if (be[i].f == e.f && be[i].t == e.t && be[i].cat == e.cat) j.insert(be[i].text + "/" + vf::join(be[i].tags, ts)); return e.cat + ":" + vf::join(j, ", ");
                }
            }
        };
        typedef std::pair<std::string, std::string> OC; std::map<std::pair<int, int>, std::multiset<OC> > want; std::map<std::pair<int, int>, std::vector<std::pair<OC, size_t> > > byEdge;
        for (size_t i = 0; i < be.size(); ++i) { OC x(O1 + Pr::one(op, be[i], be, ts, aps, avs) + O2, C1 + Pr::one(cp, be[i], be, ts, aps, avs) + C2); std::multiset<OC>& m = want[std::make_pair(be[i].f, be[i].t)]; if (!collapse || !m.count(x)) m.insert(x); byEdge[std::make_pair(be[i].f, be[i].t)].push_back(std::make_pair(x, i)); }
        // taking the brackets away
        { std::string s; char in = 0; for (size_t i = 0; i < out.size(); ++i) { if (!in && (out[i] == 2 || out[i] == 4)) in = out[i] + 1; else if (in && out[i] == in) in = 0; else if (!in) s += out[i]; } c.eq(s, text, "bracketing-text", "text without the brackets"); }
        if (dis) {
            std::map<int, std::multiset<std::string> > op2, cl2; int n = 0; size_t p = 0, i = 0;
            for (std::map<std::pair<int, int>, std::multiset<OC> >::iterator m = want.begin(); m != want.end(); ++m) for (std::multiset<OC>::iterator z = m->second.begin(); z != m->second.end(); ++z) { op2[m->first.first].insert(z->first); cl2[m->first.second].insert(z->second); }
            bool roles = op.p[1] == 'r';
            while (i < out.size()) {
                if (out[i] == 2) { size_t e = out.find('\x03', i); std::string s = out.substr(i, e - i + 1); c.expect(e != std::string::npos && (roles || op.kind >= 9 || op2[(int)p].count(s)), "disambig-bracket", "opening bracket " + q(s) + " at " + str(p)); ++n; i = e + 1; }
                else if (out[i] == 4) { size_t e = out.find('\x05', i); std::string s = out.substr(i, e - i + 1); c.expect(e != std::string::npos && cl2[(int)p].count(s), "disambig-bracket", "closing bracket " + q(s) + " at " + str(p)); --n; c.expect(n >= 0, "disambig-bracket", "closed before it was opened"); i = e + 1; }
                else { ++p; ++i; }
            }
            c.eq(n, 0, "disambig-bracket", "brackets left open"); continue;
        }
        // at every position: the brackets that close (shortest first), then those that open (longest first)
        size_t at = 0; std::map<std::pair<int, int>, std::vector<OC> > opened;
        for (size_t b = 0; b < L.bnd.size(); ++b) {
            int p = (int)L.bnd[b];
            for (int f = (int)b - 1; f >= 0; --f) {
                std::pair<int, int> key((int)L.bnd[f], p); std::vector<OC>& o = opened[key];
                for (size_t z = o.size(); z-- > 0;) { c.expect(out.compare(at, o[z].second.size(), o[z].second) == 0, "brackets", "at " + str(p) + " expected the closing bracket " + q(o[z].second) + " of the edge from " + str(key.first) + ", found " + q(out.substr(at, 60))); at += o[z].second.size(); ++shown; }
            }
            for (int t = (int)L.bnd.size() - 1; t > (int)b; --t) {
                std::pair<int, int> key(p, (int)L.bnd[t]); if (!want.count(key)) continue; std::multiset<OC> m = want[key]; std::vector<OC>& o = opened[key];
                while (!m.empty()) {
                    size_t e = out.size() > at && out[at] == 2 ? out.find('\x03', at) : std::string::npos; std::string s = e == std::string::npos ? out.substr(at, 60) : out.substr(at, e - at + 1);
                    // which closing bracket goes with it shows when it is closed: take those with this opening bracket
                    std::multiset<OC>::iterator z = m.lower_bound(OC(s, "")); c.expect(z != m.end() && z->first == s, "brackets", "at " + str(p) + " found " + q(s) + " where an edge to " + str(key.second) + " opens, e.g. " + q(m.begin()->first));
                    std::multiset<OC>::iterator y = z; int same = 0; for (; y != m.end() && y->first == s; ++y) if (y->second == z->second) ++same; else same = -1000;
                    if (same < 0) {      // several closing brackets: read the order off the closing place
                        return;
                    }
                    o.push_back(*z); m.erase(z); at = e + 1;
                }
            }
            if (b + 1 < L.bnd.size()) { size_t n = L.bnd[b + 1] - p; c.expect(out.compare(at, n, text, p, n) == 0, "brackets", "text at " + str(p) + ", found " + q(out.substr(at, 60))); at += n; }
        }
        c.expect(at == out.size(), "brackets", "something after the end: " + q(out.substr(at, 100)));
        c.count("brackets_compared", shown);
        if (!collapse && op.kind == 7) for (std::map<std::pair<int, int>, std::vector<OC> >::iterator m = opened.begin(); m != opened.end(); ++m) {      // what is built of an edge of the same span encloses it
            std::vector<std::pair<OC, size_t> >& v = byEdge[m->first];
            for (size_t x = 0; x < v.size(); ++x) for (size_t y = 0; y < v.size(); ++y) {
                const BE& a = be[v[x].second]; const BE& b = be[v[y].second]; if (x == y || !a.hasParent || !(a.parent == b.d)) continue;
                if (std::count(m->second.begin(), m->second.end(), v[x].first) != 1 || std::count(m->second.begin(), m->second.end(), v[y].first) != 1) continue;
                size_t px = std::find(m->second.begin(), m->second.end(), v[x].first) - m->second.begin(), py = std::find(m->second.begin(), m->second.end(), v[y].first) - m->second.begin(); c.count("enclosures_checked");
                c.expect(px < py, "enclosure", "bracket " + q(v[x].first.first) + " does not enclose " + q(v[y].first.first) + ", of which it is built");
            }
        }
    }
    c.nontrivial = shown >= 2;
}
void run_case(Ctx& c) { if (c.r.chance(50)) simple(c); else bracketing(c); }
}
VF_MAIN

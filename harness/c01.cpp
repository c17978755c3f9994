// C01: random histories of edge additions interleaved with queries, against a set-of-edges model.
#include "lat.hpp"
namespace vf {
void setup(const std::string&) {}
void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "history";
    AnnotationItemManager aim;
    bool loosey = r.chance(40);
    std::string t = r.chance(50) ? std::string("Ala ma kota").substr(0, r.range(1, 11)) : rand_text(r, 10);
    Lattice lat(aim);
    LatModel m(aim, lat);
    static const char* tg[] = {"token", "symbol", "frag", "lemma", "!pl", "!en", "discarded", "x-y"};
    std::vector<std::string> tags(tg, tg + 8);
    static const char* cats[] = {"T", "N", "'a", "'A", "", "a b"};
    std::vector<MMask> masks = mask_pool(r, tags, r.range(2, 7));
    lat.appendString(t); m.retext(t);
    c.note("text " + q(t));
    int ops = c.thorough ? r.range(3, 60) : r.range(3, 30), merged = 0;
    if (r.chance(60)) { m.addSymbols(0, (int)t.size()); c.note("symbols"); }
    for (int o = 0; o < ops; ++o) {
        int k = r.range(0, 19);
        std::ostringstream d;
        std::vector<int> vs(m.bnd.begin(), m.bnd.end()); vs.insert(vs.end(), m.loose.begin(), m.loose.end());
        if (k == 0 && loosey && m.loose.size() < 4) {
            int v = lat.addLooseVertex();
            c.expect(v < 0 && lat.isLooseVertex(v) && std::find(m.loose.begin(), m.loose.end(), v) == m.loose.end(), "loose", "addLooseVertex gave " + vf::str(v));
            m.loose.push_back(v); m.rank[v] = (r.chance(20) ? -1 : (int)r.below(m.text.size() + 1)) + 0.05 + 0.01 * m.loose.size();
            d << "loose " << v; c.note(d.str());
        } else if (k == 1) {
            std::string s = rand_text(r, 4);
            int at = (int)m.text.size();
            lat.appendString(s); m.retext(m.text + s); d << "append " << q(s);
            if (r.chance(60)) { m.addSymbols(at, (int)m.text.size()); d << " with symbols"; }
            c.note(d.str());
        } else if (k == 2) {
            size_t a = r.below(m.bnd.size()), b = a + r.below(m.bnd.size() - a);
            d << "addSymbols " << m.bnd[a] << "-" << m.bnd[b]; c.note(d.str());
            bool conv = false;                       // a symbol edge with text exists already as another edge?
            for (size_t i = 0; i < m.e.size(); ++i) if (m.e[i].from >= 0 && m.e[i].to >= 0 && m.e[i].tags.count("symbol") && !m.e[i].implicit) conv = true;
            if (!conv) m.addSymbols((int)m.bnd[a], (int)m.bnd[b]);
        } else if (k == 3) {
            m.checkVertex(c, r.pick(vs), r.pick(masks), r.range(0, 5));
        } else if (k == 4) {
            m.checkSorted(c, r.pick(masks), r.range(0, 5), r.chance(50));
        } else if (k == 7) {                           // queries, with new tag masks too, between the steps of an iteration
            MMask mk = r.chance(50) ? r.pick(masks) : mask_pool(r, tags, 1).back(); int v = r.pick(vs), way = r.range(0, 3); LayerTagMask lm = m.mask(mk, r.range(0, 5));
            std::vector<int> got, want;
            struct Q { static void q(Ctx& c, Rng& r, LatModel& m, const std::vector<std::string>& tags, const std::vector<int>& vs, int how) { for (int n = r.range(0, 2); n > 0; --n) { MMask x = mask_pool(r, tags, 1).back(); if (r.chance(70)) m.checkVertex(c, r.pick(vs), x, how); else m.checkSorted(c, x, how, r.chance(50)); } } };
            if (way == 0) { Lattice::InOutEdgesIterator it = lat.outEdges(v, lm); while (it.hasNext() && got.size() <= m.e.size()) { Q::q(c, r, m, tags, vs, r.range(0, 5)); got.push_back(m.idOf(it.next())); } want = m.want(v, true, mk); }
            else if (way == 1) { Lattice::InOutEdgesIterator it = lat.inEdges(v, lm); while (it.hasNext() && got.size() <= m.e.size()) { Q::q(c, r, m, tags, vs, r.range(0, 5)); got.push_back(m.idOf(it.next())); } want = m.want(v, false, mk); }
            else if (way == 2) { Lattice::EdgesSortedBySourceIterator it = lat.edgesSortedBySource(lm), jt = lat.edgesSortedBySource(lm); while (it.hasNext() && got.size() <= m.e.size()) { Q::q(c, r, m, tags, vs, r.range(0, 5)); got.push_back(m.idOf(it.next())); } while (jt.hasNext()) want.push_back(m.idOf(jt.next())); }
            else { Lattice::EdgesSortedByTargetIterator it = lat.edgesSortedByTarget(lm), jt = lat.edgesSortedByTarget(lm); while (it.hasNext() && got.size() <= m.e.size()) { Q::q(c, r, m, tags, vs, r.range(0, 5)); got.push_back(m.idOf(it.next())); } while (jt.hasNext()) want.push_back(m.idOf(jt.next())); }
            if (way < 2) m.cmp(c, got, want, "iteration", "queries between the steps of an iteration of kind " + vf::str(way) + " from " + vf::str(v) + " for " + mk.str());
            else c.expect(got == want, "iteration", "an iteration of kind " + vf::str(way) + " from " + vf::str(v) + " for " + mk.str() + " gives other edges when queries are made in between"); c.count("interleaved_iterations");
        } else if (k == 5) {
            m.checkPath(c, r.pick(vs), r.pick(masks), r.range(0, 5));
        } else if (k == 6 && !m.e.empty()) {
            int i = (int)r.below(m.e.size());
            if (m.e[i].implicit && (m.used(i) || r.chance(60))) continue;
            d << "discard " << m.show(i); c.note(d.str());
            lat.discard(m.e[i].d);
            // as the addition of the tag "discarded" with the least score
            MEdge& x = m.e[i];
            if (x.implicit) {
                x.implicit = false; x.tags.insert("discarded"); x.order = m.clock++; ++m.converted;
                Lattice::InOutEdgesIterator it = lat.allOutEdges(x.from); bool f = false;
                while (it.hasNext()) { Lattice::EdgeDescriptor dd = it.next(); if (m.idOf(dd) < 0) { x.d = dd; f = true; } }
                c.expect(f, "discard", "the discarded symbol edge is gone");
            } else {
                x.tags.insert("discarded"); MPart p; p.tags = x.tags; p.score = -std::numeric_limits<double>::max(); p.rule = p.tree = -1; x.parts.push_back(p);
            }
        } else {
            int from = r.pick(vs), to = r.pick(vs);
            if (m.rk(from) > m.rk(to) && !(from >= 0 && to >= 0 && r.chance(10))) std::swap(from, to);
            if (m.rk(from) == m.rk(to) && r.chance(90)) continue;
            std::string cat = cats[r.below(6)], tx = r.chance(60) ? std::string() : r.chance(50) ? "txt" : rand_text(r, 4);
            if (r.chance(15)) cat = rand_text(r, 4);
            AV av; for (int n = r.chance(60) ? 0 : r.range(1, 3); n > 0; --n) av[std::string(1, "abc"[r.below(3)])] = r.chance(50) ? "v" : "w" + rand_word(r, 3);
            Tags tt; for (int n = r.chance(50) ? 1 : r.range(1, 3); n > 0; --n) tt.insert(tags[r.below(8)]);
            tt.erase("discarded");
            if (tt.empty()) tt.insert("token");
            double score = r.chance(50) ? 0 : r.chance(50) ? r.range(-5, 5) : r.unit() * 10 - 5;
            int rule = r.chance(70) ? -1 : r.range(0, 9), tree = r.chance(80) ? -1 : r.range(0, 3);
            std::vector<int> links;
            bool viaP = false; int pe = -1;
            if (!m.e.empty() && r.chance(35)) {           // repeat an earlier edge, mostly
                pe = (int)r.below(m.e.size());
                MEdge& x = m.e[pe]; from = x.from; to = x.to; cat = x.cat; tx = x.text; av = x.av; ++merged;
                if (r.chance(30)) tt = x.tags;
                if (r.chance(15)) { tt.clear(); for (Tags::iterator i = x.tags.begin(); i != x.tags.end(); ++i) if ((*i)[0] != '!') tt.insert(*i); if (tt.empty()) tt.insert("token"); }
                viaP = r.chance(40);
            }
            if (!m.e.empty() && r.chance(45)) {
                if (r.chance(60)) {                       // a path between the ends
                    int x = from;
                    for (int g = 0; g < 8 && x != to; ++g) {
                        std::vector<int> cand; for (size_t i = 0; i < m.e.size(); ++i) if (m.e[i].from == x && m.rk(m.e[i].to) <= m.rk(to)) cand.push_back((int)i);
                        if (cand.empty()) break;
                        int y = r.pick(cand); links.push_back(y); x = m.e[y].to;
                    }
                } else for (int n = r.range(1, 3); n > 0; --n) links.push_back((int)r.below(m.e.size()));
            }
            std::set<int> seen; bool bad = false;
            for (size_t i = 0; i < links.size(); ++i) if (m.e[links[i]].wasImplicit && !m.e[links[i]].implicit) bad = true;
            Tags want = tt; if (viaP) { Tags pl = LatModel::planes(m.e[pe].tags); want.insert(pl.begin(), pl.end()); }
            if (LatModel::planes(want).empty()) for (size_t i = 0; i < links.size(); ++i) { Tags pl = LatModel::planes(m.e[links[i]].tags); want.insert(pl.begin(), pl.end()); }
            int x = m.find(from, to, cat, tx, av, want);
            if (x >= 0) {
                for (size_t i = 0; i < links.size(); ++i) if (links[i] != x && m.e[x].wasImplicit && m.reaches(links[i], x, seen)) bad = true;
                if (m.e[x].implicit && m.used(x)) bad = true;          // see DESIGN: the symbols of a stored stretch stay symbols
            } else if (tt.count("symbol") && from >= 0 && to >= 0) {
                // default symbol edges given without their text would be reported with it
                std::string s = from < to ? m.text.substr(from, to - from) : "";
                if (cat == "'" + s && tx.empty()) bad = true;
                // a further symbol edge before a stretch's own one would be taken for it
                if (tt.size() >= 1) for (size_t i = 0; i < m.e.size(); ++i) if (m.e[i].wasImplicit && !m.e[i].implicit) bad = true;
            }
            if (bad) continue;
            d << (viaP ? "addPartition " : "addEdge ") << from << "-" << to << " " << q(cat) << "/" << q(tx) << " av" << av.size() << " [" << tagstr(tt) << "] score " << score << " links";
            for (size_t i = 0; i < links.size(); ++i) d << " " << links[i];
            c.note(d.str());
            m.add(c, from, to, cat, tx, av, tt, links, score, rule, tree, viaP, pe);
        }
        if (r.chance(10)) m.checkAll(c, r, masks);
    }
    m.checkAll(c, r, masks);
    c.count("edges", (long)m.e.size()); c.count("merges", merged); c.count("converted", m.converted);
    c.nontrivial = m.e.size() >= 3;
}
}
VF_MAIN

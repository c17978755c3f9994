// C09: random lattices written in the PSI format, read back, compared edge by edge, and written again.
#include "rlat.hpp"
#include "psi_lattice_reader.hpp"
#include "psi_lattice_writer.hpp"
namespace vf {
void setup(const std::string&) {}
static std::string write(Lattice& l, bool header) { PsiLatticeWriter w(header); std::ostringstream o; w.writeLattice(l, o); return o.str(); }
static void read(const std::string& s, Lattice& l) { PsiLatticeReader rd; std::istringstream i(s); static_cast<LatticeReader<std::istream>&>(rd).readIntoLattice(i, l); }

// the loose vertices in the order in which the file first mentions them
static std::map<int, int> looseOrder(const std::string& f) {
    std::map<int, int> m; std::istringstream i(f); std::string l;
    while (std::getline(i, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream w(l); std::string o, b, e; w >> o >> b >> e;
        if (b[0] == '@') { int k = atoi(b.c_str() + 1); if (!m.count(k)) { int z = (int)m.size(); m[k] = z; } }
        if (e.size() > 1 && e[1] == '@') { int k = atoi(e.c_str() + 2); if (!m.count(k)) { int z = (int)m.size(); m[k] = z; } }
    }
    return m;
}
static std::multiset<std::string> dump(Lattice& l, Dumper& d) {
    std::multiset<std::string> s; std::vector<Lattice::EdgeDescriptor> v = d.all();
    for (size_t i = 0; i < v.size(); ++i) if (!l.isEdgeHidden(v[i])) s.insert(d.full(v[i]));
    return s;
}
static void roundtrip(Ctx& c, Lattice& lat, bool header) {
    std::string f1 = write(lat, header); c.note(f1);
    AnnotationItemManager a2; Lattice l2(a2);
    try { read(f1, l2); } catch (PsiException& e) { c.fail("refused", std::string("the reader refuses what was written: ") + e.what() + "\n" + f1); }
    // the format has no room for the text after the last edge
    size_t last = 0; { Dumper d(lat); std::vector<Lattice::EdgeDescriptor> v = d.all(); for (size_t i = 0; i < v.size(); ++i) if (!lat.isEdgeHidden(v[i])) { if (!lat.isLooseVertex(lat.getEdgeSource(v[i]))) last = std::max<size_t>(last, lat.getEdgeSource(v[i])); if (!lat.isLooseVertex(lat.getEdgeTarget(v[i]))) last = std::max<size_t>(last, lat.getEdgeTarget(v[i])); } }
    std::string t1 = lat.getAllText(), t2 = l2.getAllText();
    c.expect(t2.size() >= last && t2.size() <= t1.size() && t1.compare(0, t2.size(), t2) == 0, "text", "text read back " + q(t2) + " of " + q(t1) + " with edges up to " + str(last) + "\n" + f1);
    Dumper d1(lat), d2(l2); d1.six = d2.six = true; d1.loose = looseOrder(f1);
    for (int i = 0; i < (int)d1.loose.size(); ++i) d2.loose[i] = i;
    std::multiset<std::string> s1 = dump(lat, d1), s2 = dump(l2, d2);
    c.count("edges_compared", (long)s1.size());
    std::string df = diffsets(s1, s2);
    c.expect(df.empty(), "edges", "edges differ after reading back:" + df + "\n" + f1);
    std::string f2 = write(l2, header);
    AnnotationItemManager a3; Lattice l3(a3);
    try { read(f2, l3); } catch (PsiException& e) { c.fail("refused-again", std::string("the reader refuses what was written again: ") + e.what() + "\n" + f2); }
    std::string f3 = write(l3, header);
    if (d1.loose.empty()) c.eq(f3, f2, "bytes", "written again");
}
void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "lattice";
    RLOpt o; o.maxlen = r.chance(20) ? 60 : 14; o.maxedges = c.thorough ? 24 : 12; o.looses = r.chance(25); o.roles = r.chance(30); o.scores = r.chance(50); o.multi = r.chance(30); o.partlySymbols = r.chance(20);
    static const char* tg[] = {"token", "lemma", "parse", "frag", "gobio", "poleng-tagset", "!pl", "!translation", "a_b", "lang:pl", "x*", "zażółć"};
    o.tags.assign(tg, tg + 12);
    static const char* ct[] = {"word", "'Ala'", "fraza_rzeczownikowa", "N", "T", "'_", "a b", "#", "*", "zażółć", "x:y", "a=b", "(", "a$b", "]", ">", "'", "-", "1", "...", "\\", "'<", "',", "'[", "<a", "a<1>", "<", ",", "[", "<b!c!1>"};
    o.cats.assign(ct, ct + (r.chance(50) ? 5 : 30));
    static const char* at[] = {"pos", "type", "morpho", "R", "żółć", "a_b", "x y", "#h", "n*", "a=b", "a,b", "[", "\\"};
    o.attrs.assign(at, at + (r.chance(50) ? 4 : 13));
    o.val = [](Rng& g) -> std::string {
        static const char* v[] = {"word", "R:4", "ŻMP", "1", "0", "-7", "a b", "a_b", "#", "*", "\\", "x\ny", "(", ")", "<", ">", "-", "'", "007", "\t", "\\n", "true", "a,b", "a,b=c", "a=b", "=", ",", "[x]", "[", "]", "a,,", "x=1,y=2", "<1>", "--"};
        return v[g.below(34)]; };
    o.role = [](Rng& g) -> std::string { static const char* v[] = {"head", "subj", "R:4", "a b", "a_b", "-", "7", "*", "\\", "ŻMP", "a=b", ")", ">", "#"}; return v[g.below(14)]; };
    o.ann = [](Rng& g) -> std::string { return g.chance(30) ? std::string() : g.chance(50) ? rand_word(g, 6) : rand_text(g, 5); };
    RLat L; genLattice(c, L, o);
    roundtrip(c, L.lat, r.chance(50));
    c.nontrivial = L.e.size() >= 2;
}
}
VF_MAIN

// C21: chains of annotators over real and hand-made lattices; the lattice is viewed before and after each of them.
#include "annot.hpp"
#include "layer_tag_manager.hpp"
using namespace vf;
namespace {
std::map<std::string, Made> made;                    // processors that read big files are made once
std::map<std::string, TagSet> layer;                 // the tag every edge of an annotator has
void set_layers() {
    static const char* L[][2] = {{"tp-tokenizer", "token"}, {"srx-segmenter", "segment"}, {"lang-guesser", "lang-guesser"}, {"simplenorm-normalizer", "simplenorm"}, {"morfologik", "morfologik"}, {"tagset-converter", "tagset-converter"}, {"detok", "text"}, {"puddle", "puddle"}};
    for (size_t i = 0; i < sizeof L / sizeof *L; ++i) layer[L[i][0]].insert(L[i][1]);
}
std::string text(Rng& r) {
    static const char* W[] = {"Ala", "ma", "kota", "w", "domu", "nr", "12", "3,5", "tys.", "zł", "Prof.", "Nowak", "np.", "się", "nie", "śpi", "the", "cat", "sleeeps", "well", "Mr.", "Smith", "żółć", "czerwony", "dom", "stoi", "pod", "lasem", "2018", "r.", "10%", "km/h", ".", "!", "?", "...", "-", "(", ")", "http://x.pl", "ul.", "Długa", "5", "m.", "i", "oraz", "bardzo", "mgr", "dr", "prof.", "duże", "psy", "XIV", "w."};
    std::string s; int n = r.range(1, 14);
    for (int i = 0; i < n; ++i) { if (r.chance(8)) s += rand_text(r, 5); else s += W[r.below(sizeof W / sizeof *W)]; int k = r.range(0, 9); s += k < 7 ? " " : k == 7 ? "\n" : k == 8 ? "" : ". "; }
    std::string t; for (size_t i = 0; i < s.size(); ++i) if (s[i]) t += s[i];
    return t;
}
std::string tag(Rng& r) { static const char* T[] = {"token", "lemma", "lexeme", "form", "parse", "segment", "conditional", "selected", "norm", "normalization", "morfologik-tagset", "gobio-tagset", "frag", "x"}; return T[r.below(14)]; }
// edges such as other tools would leave
void extra(Ctx& c, Lattice& l, const std::vector<size_t>& b) {
    Rng& r = c.r; int n = r.range(0, 6); std::vector<Lattice::EdgeDescriptor> have; std::vector<int> loose;
    { LView v = view(l); for (size_t i = 0; i < v.e.size(); ++i) if (!v.e[i].implicit) have.push_back(v.e[i].d); }
    for (int i = 0; i < n; ++i) {
        size_t a = r.below(b.size()), e = r.below(b.size()); if (a == e) continue; if (a > e) std::swap(a, e); int from = b[a], to = b[e]; if (r.chance(70)) to = b[std::min(b.size() - 1, a + 1 + r.below(4))];
        std::list<std::string> t; t.push_back(tag(r)); if (r.chance(40)) t.push_back(tag(r)); if (r.chance(50)) t.push_back(r.chance(70) ? "!pl" : "!en");
        static const char* C[] = {"T", "B", "word", "subst", "verb", "adj", "N", "NP", "I", ""}; AnnotationItem it(C[r.below(10)], StringFrag(r.chance(50) ? "dom" : r.chance(50) ? std::string("kota+subst") : rand_text(r, 4)));
        static const char* A[][2] = {{"number", "sg"}, {"case", "nom"}, {"gender", "m3"}, {"condition", "*"}, {"condition", "subst"}, {"discard", "1"}, {"x", "a|b"}};
        for (int k = r.range(0, 2); k > 0; --k) { int j = r.below(7); l.getAnnotationItemManager().setValue(it, A[j][0], A[j][1]); }
        Lattice::EdgeSequence::Builder sb(l);
        if (!have.empty() && r.chance(40)) { Lattice::EdgeDescriptor d = r.pick(have); if (l.isLooseVertex(l.getEdgeSource(d)) || l.isLooseVertex(l.getEdgeTarget(d))) continue; from = l.getEdgeSource(d); to = l.getEdgeTarget(d); sb.addEdge(d); }
        else t.remove_if([](const std::string& x) { return x == "lexeme" || x == "form" || x == "parse"; });      // these stand on other edges
        if (t.empty()) t.push_back("x");
        try { have.push_back(l.addEdge(from, to, it, l.getLayerTagManager().createTagCollection(t), sb.build(), r.chance(70) ? 0 : r.range(-3, 3))); } catch (EdgeSelfReferenceException&) {}
    }
    // an edge that was discarded before
    if (!have.empty() && r.chance(20)) l.discard(r.pick(have));
}
Made pick(Ctx& c, bool heavy) {
    Rng& r = c.r; std::string n; Args a; static const char* LG[] = {"pl", "pl", "en", "de"}; std::string l = LG[r.below(4)];
    switch (r.range(0, heavy ? 15 : 10)) {
        case 0: case 1: n = "tp-tokenizer"; a = {"--lang", l}; if (r.chance(30)) { a.push_back("--token-length-hard-limit"); a.push_back(str(r.range(4, 20))); } break;
        case 2: case 3: n = "srx-segmenter"; a = {"--lang", l}; if (r.chance(30)) { a.push_back("--sentence-length-hard-limit"); a.push_back(str(r.range(10, 60))); } if (r.chance(20)) a.push_back("--cascade"); break;
        case 4: n = "lang-guesser"; if (r.chance(60)) a = {"--force"}; if (r.chance(50)) { a.push_back("--only-langs"); a.push_back("pl"); a.push_back("en"); } break;
        case 5: n = "simplenorm-normalizer"; a = {"--lang", "pl"}; break;
        case 6: n = "selector"; a = {"--in-tag", tag(r), "--fallback-tag", tag(r), "--out-tags", r.chance(50) ? "selected,token" : "chosen"}; if (r.chance(40)) { a.push_back("--test-tag"); a.push_back(tag(r)); } if (r.chance(30)) a.push_back("--with-blank"); break;
        case 7: n = "antiselector"; a = {"--in-tag", tag(r), "--fallback-tag", tag(r), "--out-tags", "chosen"}; if (r.chance(30)) a.push_back("--with-blank"); break;
        case 8: n = "joiner"; a = {"--lang", "pl", "--left-mask", tag(r), "--right-mask", tag(r), "--out-tags", r.chance(50) ? "joined" : "joined,!pl"}; if (r.chance(30)) a.push_back("--take-right-text"); if (r.chance(30)) a.push_back("--no-outer-join"); if (r.chance(30)) a.push_back("--extended-outer-join"); break;
        case 9: n = "tagset-converter"; a = {"--lang", "pl"}; break;
        case 10: n = "detok"; break;
        case 11: n = "morfologik"; a = {"--level", str(r.range(0, 3))}; break;
        case 12: n = "morfologik"; a = {"--level", "1"}; break;
        case 13: n = "selector"; a = {"--in-tag", "lexeme", "--fallback-tag", "token", "--out-tags", "chosen"}; break;
        case 14: n = "joiner"; a = {"--lang", "pl", "--left-mask", "lemma", "--right-mask", "lexeme", "--out-tags", "joined,!pl"}; break;
        default: n = "puddle"; a = {"--lang", "pl"}; break;
    }
    bool keep = n == "morfologik" || n == "puddle" || n == "lang-guesser";
    std::string k = n; for (size_t i = 0; i < a.size(); ++i) k += " " + a[i];
    if (keep && made.count(k)) return made[k];
    Made m = make(n, a); if (keep) made[k] = m; return m;
}
void compare(Ctx& c, const LView& a, const LView& b, const Made& m, Lattice& l) {
    std::string w = "after " + m.show() + ": ";
    c.eq(b.text, a.text, "text", w + "text of the lattice");
    std::vector<int> now(a.e.size(), -1); std::vector<char> old(b.e.size(), 0);
    std::map<std::string, int> bykey; for (size_t i = 0; i < b.e.size(); ++i) bykey[b.e[i].key()] = i;
    for (size_t i = 0; i < a.e.size(); ++i) {
        const EView& x = a.e[i]; int j = b.idOf(x.d);
        if (j < 0 && x.implicit) { std::map<std::string, int>::iterator k = bykey.find(x.key()); if (k != bykey.end()) j = k->second; }
        c.expect(j >= 0, "lost", w + "an edge is gone: " + x.show()); const EView& y = b.e[j]; now[i] = j; old[j] = 1;
        c.eq(y.key(), x.key(), "changed", w + "an earlier edge"); 
        for (TagSet::const_iterator t = x.tags.begin(); t != x.tags.end(); ++t) c.expect(y.tags.count(*t), "tags", w + "an earlier edge lost the tag " + *t + ": " + x.show());
        c.expect(y.parts.size() >= x.parts.size(), "parts", w + "an earlier edge lost a partition: " + x.show());
        for (size_t p = 0; p < x.parts.size(); ++p) c.expect(y.parts[p].links == x.parts[p].links && y.parts[p].tags == x.parts[p].tags && y.parts[p].score == x.parts[p].score, "parts", w + "a partition of an earlier edge changed: " + x.show());
        bool same = y.parts.size() == x.parts.size();       // merges leave a partition
        if (same && y.implicit == x.implicit) { c.expect(y.tags == x.tags, "tags", w + "an earlier edge changed its tags: " + x.show() + " to " + y.show()); c.eq(y.score, x.score, "score", w + "score of " + x.show()); }
        else c.expect(y.score >= x.score, "score", w + "score of " + x.show());
    }
    // the order of the earlier edges at each vertex
    for (int dir = 0; dir < 2; ++dir) {
        const std::map<int, std::vector<int> >& va = dir ? a.in : a.out; const std::map<int, std::vector<int> >& vb = dir ? b.in : b.out;
        for (std::map<int, std::vector<int> >::const_iterator i = va.begin(); i != va.end(); ++i) {
            std::vector<int> wa, wb; std::set<int> of;
            for (size_t k = 0; k < i->second.size(); ++k) { int j = now[i->second[k]]; if (a.e[i->second[k]].implicit == b.e[j].implicit) { wa.push_back(j); of.insert(j); } }
            std::map<int, std::vector<int> >::const_iterator f = vb.find(i->first); if (f != vb.end()) for (size_t k = 0; k < f->second.size(); ++k) if (of.count(f->second[k])) wb.push_back(f->second[k]);
            c.expect(wa == wb, "order", w + "the earlier edges at vertex " + str(i->first) + " come in another order");
        }
    }
    long fresh = 0;
    for (size_t j = 0; j < b.e.size(); ++j) {
        const EView& y = b.e[j];
        for (size_t p = 0; p < y.parts.size(); ++p) for (size_t k = 0; k < y.parts[p].links.size(); ++k) c.expect(b.idOf(y.parts[p].links[k]) >= 0, "part", w + "a part of " + y.show() + " is no edge of the lattice");
        if (old[j]) continue;
        ++fresh;
        if (y.from >= 0 && y.to >= 0) c.expect(y.from < y.to && y.to <= (int)b.text.size(), "outside", w + "a new edge outside the text: " + y.show());
        else c.expect(m.name == "detok", "outside", w + "a new edge in a loose vertex: " + y.show());   // detok gives the new text as an edge of its own
        if (y.from >= 0 && y.to >= 0) {
            for (int k = 0; k < 2; ++k) { int p = k ? y.to : y.from; c.expect(p == (int)b.text.size() || ((unsigned char)b.text[p] & 0xC0) != 0x80, "outside", w + "a new edge cuts a character: " + y.show()); }
            c.eq(l.getEdgeText(y.d), b.text.substr(y.from, y.to - y.from), "stretch", w + "text under the new edge " + y.show());
        }
        std::map<std::string, TagSet>::const_iterator t = layer.find(m.name);
        if (t != layer.end()) { bool has = false; for (TagSet::const_iterator k = t->second.begin(); k != t->second.end(); ++k) if (y.tags.count(*k)) has = true; c.expect(has || (m.name == "tp-tokenizer" && y.implicit), "layer", w + "a new edge without the tag of the annotator: " + y.show()); }
        for (size_t k = 0; k + 1 < m.args.size(); ++k) if (m.args[k] == "--out-tags") { std::string s = m.args[k + 1]; for (size_t z = 0; z <= s.size();) { size_t e = s.find(',', z); if (e == std::string::npos) e = s.size(); c.expect(y.tags.count(s.substr(z, e - z)), "layer", w + "a new edge without the tag " + s.substr(z, e - z) + ": " + y.show()); z = e + 1; } }
        for (size_t p = 0; p < y.parts.size(); ++p) for (size_t k = 0; k < y.parts[p].links.size(); ++k) { const EView& z = b.e[b.idOf(y.parts[p].links[k])]; if (z.from >= 0 && z.to >= 0) c.expect(z.from >= y.from && z.to <= y.to, "part-outside", w + "a part of " + y.show() + " lies outside it: " + z.show()); }
    }
    if (cyclic(a) < 0) { int x = cyclic(b); c.expect(x < 0, "cycle", w + "an edge consists of itself: " + (x < 0 ? "" : b.e[x].show())); }
    c.count("edges kept", (long)a.e.size()); c.count(("edges added by " + m.name).c_str(), fresh); if (fresh) c.nontrivial = true;
}
}
namespace vf {
void setup(const std::string&) { set_layers(); }
void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "chain"; AnnotationItemManager aim; Lattice l(aim); std::string t = text(r); if (t.empty()) t = "a";
    bool hv = r.chance(60); if (hv || r.chance(70)) l.appendStringWithSymbols(t); else l.appendString(t);
    c.note("text: " + q(t)); std::vector<size_t> b = bounds(t);
    if (r.chance(70)) l.addEdge(0, (int)t.size(), AnnotationItem("FRAG", StringFrag(t)), l.getLayerTagManager().createTagCollectionFromList({"frag", "txt-reader"}));
    int n = r.range(1, hv ? 6 : 7); bool tok = false;
    for (int i = 0; i < n; ++i) {
        if (r.chance(25)) extra(c, l, b);
        Made m = i == 0 && r.chance(50) ? make("tp-tokenizer", {"--lang", "pl"}) : pick(c, hv && tok); if (m.name == "tp-tokenizer" && m.args[1] == "pl") tok = true;   // the heavy ones require tokens of their language
        LView a = view(l); c.note("run " + m.show());
        try { m.p->annotate(l); } catch (Violation&) { throw; } catch (std::exception& e) { c.note(std::string("it fails: ") + e.what()); if (getenv("VF_DUMP")) { std::vector<std::string> d = dump(view(l)); for (size_t k = 0; k < d.size(); ++k) c.note(d[k]); } c.count(("failures of " + m.name).c_str(), 1); compare(c, a, view(l), m, l); c.expect(false, "failure:" + m.name, m.show() + " fails: " + e.what()); break; }
        compare(c, a, view(l), m, l);
    }
}
}
VF_MAIN

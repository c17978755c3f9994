// C03: layer-tag collections and masks against std::set algebra.
#include "lat.hpp"
namespace vf {
void setup(const std::string&) {}
static Tags back(LayerTagManager& g, LayerTagCollection t) { std::list<std::string> l = g.getTagNames(t); Tags r(l.begin(), l.end()); if (r.size() != l.size()) throw Violation("names", "a tag name is listed twice"); std::list<std::string> s(l); s.sort(); if (s != l) throw Violation("names", "tag names are not sorted"); return r; }
static LayerTagCollection make(Ctx& c, LayerTagManager& g, const Tags& t) {
    std::vector<std::string> v(t.begin(), t.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[c.r.below(i)]);
    if (!v.empty() && c.r.chance(20)) v.push_back(v[c.r.below(v.size())]);
    switch (c.r.range(0, 4)) {
        case 0: return g.createTagCollection(v);
        case 1: return g.createTagCollection(std::list<std::string>(v.begin(), v.end()));
        case 2: { LayerTagCollection r = g.createEmptyTagCollection(); for (size_t i = 0; i < v.size(); ++i) r = createUnion(r, g.createSingletonTagCollection(v[i])); return r; }
        case 3: if (!v.empty()) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i]; return g.createTagCollection(s); } // fallthrough
        default: return g.createTagCollectionFromVector(v);
    }
}
static MMask randMask(Rng& r, const std::vector<std::string>& pool) {
    MMask m; m.any = r.chance(5);
    if (!m.any) for (int n = r.range(1, 4); n > 0; --n) { Tags t; for (int k = r.range(1, 3); k > 0; --k) t.insert(r.pick(pool)); m.alts.push_back(t); }
    return m;
}
static LayerTagMask makeMask(Ctx& c, LayerTagManager& g, const MMask& m) {
    if (m.any) return g.anyTag();
    std::vector<LayerTagCollection> v; for (size_t i = 0; i < m.alts.size(); ++i) v.push_back(make(c, g, m.alts[i]));
    int k = c.r.range(0, 4);
    if (m.alts.size() == 1 && k == 0) return g.getMask(v[0]);
    if (m.alts.size() == 1 && k == 1 && m.alts[0].size() == 1) return g.getSingletonMask(*m.alts[0].begin());
    if (m.alts.size() == 2 && k == 1) return g.getAlternativeMask(v[0], v[1]);
    if (m.alts.size() == 3 && k == 1) return g.getAlternativeMask(v[0], v[1], v[2]);
    if (k == 2) { std::list<std::list<std::string> > l; for (size_t i = 0; i < m.alts.size(); ++i) l.push_back(std::list<std::string>(m.alts[i].begin(), m.alts[i].end())); return g.getAlternativeMaskFromTagNames(l); }
    if (k == 3) return g.getMask(m.str());
    return g.getAlternativeMask(v);
}
void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "algebra";
    LayerTagManager g;
    // names as layer tags look: letters, digits, dashes and other characters but not the separators
    int n = r.chance(20) ? 63 : r.range(1, 20);       // "symbol" is always there: 64 in all
    std::vector<std::string> pool; Tags known; pool.push_back("symbol"); known.insert("symbol");
    while ((int)pool.size() < n + 1) {
        std::string s;
        if (r.chance(50)) { static const char* nm[] = {"token", "frag", "segment", "lemma", "form", "lexeme", "text", "parse", "gobio", "!pl", "!en", "!de", "normalization", "word", "markup"}; s = nm[r.below(15)]; }
        else { s = rand_text(r, 6); std::string t; for (size_t i = 0; i < s.size(); ++i) if (s[i] != ',' && s[i] != ';') t += s[i]; s = (r.chance(20) ? "!" : "") + t; }
        if (s.empty()) continue;
        if (known.insert(s).second) pool.push_back(s); else if (r.chance(50)) { s += vf::str(pool.size()); if (known.insert(s).second) pool.push_back(s); }
    }
    c.note("tags " + tagstr(known));
    int rounds = c.thorough ? 25 : 12;
    for (int k = 0; k < rounds; ++k) {
        Tags A, B; for (int i = r.size((int)pool.size()); i > 0; --i) A.insert(r.pick(pool));
        if (r.chance(40)) { B = A; if (r.chance(60)) B.insert(r.pick(pool)); if (r.chance(60) && !B.empty()) B.erase(B.begin()); } else for (int i = r.size(8); i > 0; --i) B.insert(r.pick(pool));
        LayerTagCollection a = make(c, g, A), b = make(c, g, B);
        std::string w = "{" + tagstr(A) + "} and {" + tagstr(B) + "}";
        Tags U(A), I; U.insert(B.begin(), B.end()); for (Tags::iterator i = A.begin(); i != A.end(); ++i) if (B.count(*i)) I.insert(*i);
        c.eq(tagstr(back(g, a)), tagstr(A), "names", "names of a collection"); c.eq(tagstr(back(g, b)), tagstr(B), "names", "names of a collection");
        c.eq(tagstr(back(g, createUnion(a, b))), tagstr(U), "union", "union of " + w);
        c.eq(tagstr(back(g, createIntersection(a, b))), tagstr(I), "intersection", "intersection of " + w);
        c.expect(createUnion(a, b) == createUnion(b, a) && createIntersection(a, b) == createIntersection(b, a), "commutes", "union or intersection of " + w + " does not commute");
        c.eq(isSubset(a, b), std::includes(B.begin(), B.end(), A.begin(), A.end()), "subset", "subset of " + w);
        c.eq(a == b, A == B, "equal", "equality of " + w); c.eq(a != b, A != B, "equal", "inequality of " + w);
        if (A == B) c.expect(a.getHash() == b.getHash(), "hash", "hashes of equal collections differ");
        c.eq(a.isEmpty(), A.empty(), "empty", "isEmpty of " + w); c.eq(a.isNonempty(), !A.empty(), "empty", "isNonempty of " + w);
        Tags PA = LatModel::planes(A), PB = LatModel::planes(B);
        c.eq(tagstr(back(g, g.onlyPlaneTags(a))), tagstr(PA), "planes", "plane tags of " + w);
        c.eq(g.areInTheSamePlane(a, b), PA == PB, "planes", "same plane of " + w);
        for (int j = 0; j < 3; ++j) { std::string t = r.pick(pool); c.eq(g.isThere(t, a), A.count(t) > 0, "member", "membership of " + q(t)); }
        MMask m = randMask(r, pool); LayerTagMask lm = makeMask(c, g, m), lm2 = makeMask(c, g, m);
        c.eq(matches(a, lm), m.matches(A), "matches", "{" + tagstr(A) + "} matches " + m.str());
        c.eq(matches(b, lm), m.matches(B), "matches", "{" + tagstr(B) + "} matches " + m.str());
        c.eq(matches(createUnion(a, b), lm), m.matches(U), "matches", "{" + tagstr(U) + "} matches " + m.str());
        c.expect(lm == lm2 && lm.getHash() == lm2.getHash(), "mask-equal", "two masks of " + m.str() + " differ");
        c.eq(lm.isAny(), m.any, "mask-any", "isAny of " + m.str());
        Tags S; S.insert("symbol"); c.eq(g.canBeAppliedToImplicitSymbol(lm), m.matches(S), "symbol", "whether " + m.str() + " selects default symbols");
        MMask m2 = randMask(r, pool); LayerTagMask x = makeMask(c, g, m2);
        if (lm == x) for (int j = 0; j < 6; ++j) { Tags T; for (int i = r.size(6); i > 0; --i) T.insert(r.pick(pool)); c.expect(m.matches(T) == m2.matches(T), "mask-equal", m.str() + " equals " + m2.str()); }
        // masks by language: every alternative narrowed to the language
        std::string lang = r.chance(50) ? "pl" : "en";
        if (!m.any && known.size() < 62) {
            std::list<std::list<std::string> > l; for (size_t i = 0; i < m.alts.size(); ++i) l.push_back(std::list<std::string>(m.alts[i].begin(), m.alts[i].end()));
            LayerTagMask ml = g.getAlternativeMaskFromTagNames(LayerTagManager::multiplyMaskListByLangCode(l, lang));
            c.eq(matches(a, ml), m.matches(A) && A.count("!" + lang), "lang-mask", "{" + tagstr(A) + "} matches " + m.str() + " of " + lang);
            Tags AL(A); AL.insert("!" + lang);
            c.eq(tagstr(back(g, createUnion(a, g.createLanguageTag(lang)))), tagstr(AL), "lang-tag", "language tag");
            known.insert("!" + lang);
        }
        // specifications split and joined
        if (!m.any) {
            std::list<std::list<std::string> > sp = LayerTagManager::splitMaskSpecification(m.str()); std::string j;
            for (std::list<std::list<std::string> >::iterator i = sp.begin(); i != sp.end(); ++i) { if (i != sp.begin()) j += ";"; for (std::list<std::string>::iterator t = i->begin(); t != i->end(); ++t) j += (t == i->begin() ? "" : ",") + *t; }
            c.eq(j, m.str(), "split", "mask specification split and joined");
        }
    }
    c.nontrivial = pool.size() > 2;
}
static void many(Ctx& c) {                          // the 65th tag is refused, not misread
    LayerTagManager g; std::vector<LayerTagCollection> v; bool thrown = false;
    v.push_back(g.createSingletonTagCollection("symbol"));
    for (int i = 1; i < 64; ++i) v.push_back(g.createSingletonTagCollection("t" + vf::str(i)));
    for (int i = 1; i < 64; ++i) { std::list<std::string> l = g.getTagNames(v[i]); c.expect(l.size() == 1 && l.front() == "t" + vf::str(i), "many-tags", "name of tag " + vf::str(i)); }
    try { g.createSingletonTagCollection("t64"); } catch (std::exception&) { thrown = true; }
    c.expect(thrown, "many-tags", "a 65th tag is accepted");
}
static AddProbe p1("many-tags", many);
}
VF_MAIN

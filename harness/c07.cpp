// C07: sentence segments follow the SRX rules and partition the text, with and without limits.
#include "h.hpp"
#include "rx.hpp"
#include "lattice.hpp"
#include "tools/segmenters/srx/srx_segmenter.hpp"
#include "object_cache.hpp"
#include "cutter.hpp"
#include <fstream>
namespace vf {
void setup(const std::string&) {}
struct SRule { bool brk; rx::P before, after; };
static std::string tmpf(const std::string& n) { return std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/" + n; }

static rx::P pat(Rng& r, int mx, bool mayEmpty, bool wb) {
    rx::P s = rx::mk(rx::Node::SEQ);
    if (mayEmpty && r.chance(20)) return s;
    if (wb && r.chance(20)) s->k.push_back(rx::mk(rx::Node::WORDB));
    int k = r.range(1, mx);
    for (int i = 0; i < k; ++i) s->k.push_back(r.chance(30) ? rx::elem(r, 1, true) : r.chance(40) ? [&] { rx::P l = rx::mk(rx::Node::LIT); l->c = "..- ab"[r.below(6)]; return l; }() : rx::atom(r, true));
    return s;
}
// all break points the rule gives under the three readings that may differ for odd rules
struct Reading {
    std::set<size_t> any;          // some stretch of text before the point matches, with any of its possible lengths
    std::set<size_t> first;        // the first match at each starting place
    bool nested;
    Reading() : nested(false) {}
};
static Reading read(const SRule& u, const rx::Txt& t) {
    Reading o; size_t hi = 0; bool wb = !u.before->k.empty() && u.before->k[0]->t == rx::Node::WORDB, prev = false;
    for (size_t s = 0; s < t.size(); ++s) {
        long f = -1;
        rx::m(*u.before, t, s, [&](size_t b) {
            if (!rx::m(*u.after, t, b, [](size_t) { return true; })) return false;
            o.any.insert(b); if (f < 0) f = b; return false; });
        if (wb && s > 0 && prev && !rx::wordb(t, s)) {             // the code restarts one character on, where \b would now hold
            rx::Txt rest(t.begin() + s, t.end());
            if (rx::m(*u.before, rest, 0, [&](size_t b) { return rx::m(*u.after, rest, b, [](size_t) { return true; }); })) o.nested = true;
        }
        if (wb && s > 0 && f >= 0) {                               // a match that would not be seen if the code restarted exactly here
            rx::Txt rest(t.begin() + s, t.end());
            if (!rx::wordb(rest, 0)) o.nested = true;
        }
        prev = f >= 0;
        if (f >= 0) { o.first.insert(f); if ((size_t)f < hi) o.nested = true; hi = std::max(hi, (size_t)f); }
    }
    return o;
}
static bool pieces(const std::string& t, size_t from, size_t to, size_t hard, size_t soft, std::vector<std::pair<size_t, size_t> >& out) {
    size_t p = from;
    while (p < to) {
        size_t cut = to;
        if (soft && to - p >= soft) { size_t q = p + soft; while (q < to && t[q] != ' ') ++q; cut = std::min(cut, q); }
        if (hard && to - p >= hard) { size_t q = p + hard; while (q > p && q < t.size() && ((unsigned char)t[q] & 0xC0) == 0x80) --q; if (q == p) return false; cut = std::min(cut, q); }
        out.push_back(std::make_pair(p, cut)); p = cut;
    }
    return true;
}
static std::string xml(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '<') o += "&lt;"; else if (s[i] == '>') o += "&gt;"; else if (s[i] == '&') o += "&amp;"; else o += s[i]; } return o; }
static std::string show(const rx::Node& n, Rng& r) { std::string s = rx::show(n, false); if (r.chance(50)) { size_t p = 0; while ((p = s.find("(?:", p)) != std::string::npos) s.replace(p, 3, "("); } return s; }

static std::vector<std::string> segment(const std::string& lang, const std::string& file, const std::string& text) {
    ObjectCache::getInstance().clear();
    SrxSegmenter seg(lang, file, 0, 0, false);
    AnnotationItemManager aim; Lattice lat(aim); lat.appendStringWithSymbols(text);
    lat.addEdge(0, text.size(), AnnotationItem("TEXT", StringFrag(text)), lat.getLayerTagManager().createTagCollectionFromListWithLangCode(std::list<std::string>(1, "text"), lang));
    seg.annotate(lat);
    std::vector<std::string> o;
    LayerTagMask sm = lat.getLayerTagManager().getMask(lat.getLayerTagManager().createSingletonTagCollection("segment"));
    Lattice::EdgesSortedBySourceIterator it(lat, sm);
    while (it.hasNext()) o.push_back(lat.getAnnotationText(it.next()));
    return o;
}
static AddProbe p1("alternatives-of-different-length", [](Ctx& c) {
    // the shipped Polish rules list "dr. hab." (and "dr.") as abbreviations before names
    std::vector<std::string> s = segment("pl", std::string(getenv("VF_REPO")) + "/tools/segmenters/srx/data/pl/segmentation.srx", "To jest dr. hab. Kowalski.");
    c.expect(s.size() == 1, "alternatives-of-different-length", "'To jest dr. hab. Kowalski.' is split after 'hab.' although the exception \\b(?:[dD]r|...|(?:[dD]r|[dD]r\\.)\\s(?:hab|habil))\\. matches before that place");
});
static std::string rulefile(const char* rules) {
    std::string fn = tmpf("probe.srx"); std::ofstream o(fn.c_str());
    o << "<?xml version=\"1.0\"?><srx version=\"2.0\"><header segmentsubflows=\"yes\"></header><body><languagerules><languagerule languagerulename=\"x\">" << rules
      << "</languagerule></languagerules><maprules><languagemap languagepattern=\".*\" languagerulename=\"x\"/></maprules></body></srx>";
    return fn;
}
static AddProbe p2("nested-matches", [](Ctx& c) {
    // 'b' is an exception on its own, but the rule is first tried where 'ab c' matches
    std::vector<std::string> s = segment("xx", rulefile("<rule break=\"no\"><beforebreak>ab c|b</beforebreak><afterbreak></afterbreak></rule><rule break=\"yes\"><beforebreak>b</beforebreak><afterbreak></afterbreak></rule>"), "ab cd");
    c.expect(s.size() == 1, "nested-matches", "'ab cd' is split after 'b' although the exception 'ab c|b' matches before that place: the match that starts earlier hides it");
});
static AddProbe p3("word-boundary-at-restart", [](Ctx& c) {
    // \\b holds only before the first a
    std::vector<std::string> s = segment("xx", rulefile("<rule break=\"yes\"><beforebreak>\\ba</beforebreak><afterbreak></afterbreak></rule>"), "aaab");
    c.expect(s.size() == 2, "word-boundary-at-restart", "'aaab' is split inside 'aab' by the rule \\ba: the text before the place a search restarts from is not seen");
});

void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "rules";
    int sets = r.range(1, 3);
    std::vector<std::vector<SRule> > rs(sets);
    std::string lr; std::vector<std::string> names;
    for (int i = 0; i < sets; ++i) {
        names.push_back("L" + str(i));
        lr += "<languagerule languagerulename=\"" + names[i] + "\">\n";
        int n = r.range(1, 5);
        for (int k = 0; k < n; ++k) {
            SRule u; u.brk = r.chance(55);
            bool be = r.chance(15), ae = !be && r.chance(25);
            u.before = be ? rx::mk(rx::Node::SEQ) : pat(r, 3, false, true);
            u.after = ae ? rx::mk(rx::Node::SEQ) : pat(r, 2, false, false);
            rs[i].push_back(u);
            if (r.chance(15)) lr += "<!-- a comment -->";
            lr += std::string("<rule break=\"") + (u.brk ? "yes" : "no") + "\"><beforebreak>" + xml(show(*u.before, r)) + "</beforebreak>\n<afterbreak>" + xml(show(*u.after, r)) + "</afterbreak></rule>\n";
        }
        lr += "</languagerule>\n";
    }
    bool v2 = r.chance(50), cascadeAttr = r.chance(35), force = r.chance(15), cascade = cascadeAttr || force;
    std::string lang = r.pick(std::vector<std::string>{"pl", "en", "xx"});
    std::string maps; std::vector<int> inforce;
    for (int i = 0; i < sets; ++i) {
        std::string p = r.pick(std::vector<std::string>{"pl", "en", ".*", "[px][lx].*", "(en|xx)", "p"});
        bool m = p == ".*" || p == lang || (p == "[px][lx].*" && lang != "en") || (p == "(en|xx)" && lang != "pl");
        maps += "<languagemap languagepattern=\"" + p + "\" languagerulename=\"" + names[i] + "\"/>\n";
        if (m && (cascade || inforce.empty())) inforce.push_back(i);
    }
    std::string file = "<?xml version=\"1.0\"?>\n<srx version=\"" + std::string(v2 ? "2.0" : "1.0") + "\">\n<header segmentsubflows=\"yes\"" + (cascadeAttr ? " cascade=\"yes\"" : r.chance(30) ? " cascade=\"no\"" : "") + "></header>\n<body><languagerules>\n" + lr + "</languagerules>\n<maprules>\n" +
        (v2 ? maps : "<maprule maprulename=\"m\">\n" + maps + "</maprule>\n") + "</maprules></body></srx>\n";
    c.note(file); c.note("language " + lang + (force ? " cascade forced" : ""));
    std::string fn = tmpf("r.srx"); { std::ofstream o(fn.c_str(), std::ios::binary); o << file; }
    std::vector<SRule> rules; for (size_t i = 0; i < inforce.size(); ++i) rules.insert(rules.end(), rs[inforce[i]].begin(), rs[inforce[i]].end());
    for (size_t i = 0; i < rules.size(); ++i) { rx::Txt e; }
    size_t hard = 0, soft = 0;
    if (r.chance(30)) hard = r.range(4, 16);
    if (r.chance(30)) soft = r.range(1, 14);
    if (hard && r.chance(10)) hard = r.range(1, 3);
    ObjectCache::getInstance().clear();
    SrxSegmenter seg(lang, fn, hard, soft, force);
    int rounds = r.range(1, 4);
    for (int round = 0; round < rounds; ++round) {
        int frags = r.chance(70) ? 1 : r.range(2, 3);
        std::vector<std::string> ft; std::string all; std::vector<std::pair<size_t, size_t> > span; std::vector<rx::Txt> fr;
        for (int i = 0; i < frags; ++i) {
            rx::Txt t = rx::text(r, c.thorough ? 120 : 50); std::string s; for (size_t k = 0; k < t.size(); ++k) s += utf8(t[k]);
            if (s.empty()) continue;
            fr.push_back(t); ft.push_back(s); span.push_back(std::make_pair(all.size(), all.size() + s.size())); all += s;
        }
        c.note("text " + q(all) + " in " + str(span.size()) + " stretches, hard " + str(hard) + " soft " + str(soft));
        std::string want; bool refuses = false, ambiguous = false; int nseg = 0;
        for (size_t f = 0; f < fr.size() && !refuses && !ambiguous; ++f) {
            const rx::Txt& t = fr[f]; std::vector<size_t> b = bounds(ft[f]);
            std::vector<Reading> rd; for (size_t i = 0; i < rules.size(); ++i) { rd.push_back(read(rules[i], t)); if (rd[i].any != rd[i].first || rd[i].nested) ambiguous = true; }
            size_t start = 0;
            while (start < t.size() && !refuses && !ambiguous) {
                rx::Txt rest(t.begin() + start, t.end());
                for (size_t i = 0; i < rules.size(); ++i) {        // the reading must not depend on where the last break was
                    Reading q = read(rules[i], rest); std::set<size_t> x, y;
                    for (std::set<size_t>::iterator k = q.any.begin(); k != q.any.end(); ++k) if (*k > 0) x.insert(*k + start);
                    for (std::set<size_t>::iterator k = rd[i].any.begin(); k != rd[i].any.end(); ++k) if (*k > start) y.insert(*k);
                    if (x != y || q.any != q.first || q.nested) ambiguous = true;
                }
                size_t e = t.size();
                for (size_t p = start + 1; p < t.size() && e == t.size(); ++p)
                    for (size_t i = 0; i < rules.size(); ++i)
                        if (rd[i].any.count(p)) { if (rules[i].brk) { e = p; c.count("breaks"); } else c.count("exceptions"); break; }
                std::vector<std::pair<size_t, size_t> > ps;
                if (!pieces(ft[f], b[start], b[e], hard, soft, ps)) { refuses = true; break; }
                if (ps.size() > 1) c.count("segments_cut_by_limits");
                for (size_t k = 0; k < ps.size(); ++k) { want += "[" + str(span[f].first + ps[k].first) + "-" + str(span[f].first + ps[k].second) + " sen " + q(ft[f].substr(ps[k].first, ps[k].second - ps[k].first)) + "]"; ++nseg; }
                start = e;
            }
        }
        AnnotationItemManager aim; Lattice lat(aim);
        lat.appendStringWithSymbols(all);
        LayerTagCollection txt = lat.getLayerTagManager().createTagCollectionFromListWithLangCode(std::list<std::string>(1, "text"), lang);
        for (size_t f = 0; f < span.size(); ++f) lat.addEdge(span[f].first, span[f].second, AnnotationItem("TEXT", StringFrag(ft[f])), txt);
        bool threw = false;
        try { seg.annotate(lat); } catch (Cutter::Exception&) { threw = true; }
        if (threw) { c.expect(refuses || ambiguous, "refusal", "limit too small for a character"); c.count("refused"); continue; }
        std::string got, joined; size_t at = 0;
        LayerTagMask tm = lat.getLayerTagManager().getMask(lat.getLayerTagManager().createSingletonTagCollection("segment"));
        Lattice::EdgesSortedBySourceIterator it(lat, tm);
        std::set<size_t> starts; for (size_t f = 0; f < span.size(); ++f) starts.insert(span[f].first);
        while (it.hasNext()) {
            Lattice::EdgeDescriptor d = it.next();
            size_t from = lat.getEdgeSource(d), to = lat.getEdgeTarget(d);
            c.expect(from == at && to > from, "contiguous", "segments are contiguous and not empty");
            for (std::set<size_t>::iterator k = starts.begin(); k != starts.end(); ++k) c.expect(*k <= from || *k >= to, "stretch", "no segment runs across the end of its text");
            at = to;
            std::string tx = lat.getAnnotationText(d);
            if (hard) c.expect(tx.size() <= hard, "hard-limit", "no segment is longer than the hard limit");
            if (soft && tx.size() > soft) c.expect(tx.find(' ', soft) == std::string::npos, "soft-limit", "a segment does not run past a space beyond the soft limit");
            joined += tx; c.eq(lat.getEdgeText(d), tx, "edge-text", "text under the segment");
            got += "[" + str(from) + "-" + str(to) + " " + lat.getAnnotationCategory(d) + " " + q(tx) + "]";
            std::list<std::string> tn = lat.getLayerTagManager().getTagNames(lat.getEdgeLayerTags(d));
            std::set<std::string> tset(tn.begin(), tn.end());
            c.expect(tset.size() == 2 && tset.count("segment") && tset.count("!" + lang), "segment-tags", "a segment is tagged segment and with the language");
            c.count("segments");
        }
        c.eq(joined, all, "joined", "the segments joined");
        if (refuses && !ambiguous) c.fail("refusal", "a limit too small for a character was accepted");
        if (ambiguous) { c.count("ambiguous_rules"); continue; }
        c.eq(got, want, "segments", "segments");
        c.count("texts_compared");
        if (nseg > 1) c.nontrivial = true;
    }
}
} // namespace vf
VF_MAIN

// C06: rule-based tokenization follows the rule file and partitions the text, with and without limits.
#include "h.hpp"
#include "rx.hpp"
#include "lattice.hpp"
#include "tools/tokenizers/tp/tp_tokenizer.hpp"
#include "cutter.hpp"
#include <fstream>
namespace vf {
void setup(const std::string&) {}
struct Rule { std::string name, cat; rx::P re; std::vector<std::string> heredoc; };
struct Tok { size_t from, to; std::string cat; };

static std::string tmpf(const char* n) { return std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/" + n; }
static void put(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; }

// what is written, and which rules are in force
struct Writer {
    Rng& r; std::vector<Rule>& rules; std::map<std::string, std::string> defs; std::set<std::string> flags; std::map<std::string, std::string> files;
    int n, fileNo; std::string log; std::vector<std::string> defNames;
    std::map<std::string, rx::P> defRe;
    Writer(Rng& rr, std::vector<Rule>& v) : r(rr), rules(v), n(0), fileNo(0) {}
    std::string gap() { static const char* g[] = {"", "", "", " ", "  ", "\n   ", "\t", " #note\n ", " # @rule no/T := x\n"}; return g[r.below(9)]; }
    std::string body(const rx::Node& nd) {
        rx::Printer p(true); p.put(nd); std::string s;
        for (size_t i = 0; i < p.out.size(); ++i) s += (i ? gap() : std::string()) + p.out[i];
        return s;
    }
    // an element that may be a definition's name in the file while it is an expression in the model
    std::string ruleText(Rule& u) {
        u.re = rx::gen(r, true);
        std::string s = body(*u.re);
        if (!defNames.empty() && r.chance(35)) {
            std::string d = r.pick(defNames);
            rx::P sq = rx::mk(rx::Node::SEQ);
            if (r.chance(50)) { sq->k.push_back(u.re); sq->k.push_back(defRe[d]); s = s + gap() + d; if (u.re->k.back()->t == rx::Node::LOOK || u.re->k.back()->t == rx::Node::NLOOK) {} }
            else { sq->k.push_back(defRe[d]); sq->k.push_back(u.re); s = d + " " + s; }
            u.re = sq;
        }
        return s;
    }
    void block(std::string& o, int depth, int items, bool active) {
        for (int i = 0; i < items; ++i) {
            int x = r.range(0, 19);
            if (x < 11) {
                Rule u; u.name = std::string(1, "abcxyz_"[r.below(7)]) + "r" + str(n++); u.cat = r.pick(std::vector<std::string>{"T","B","X","I","word","Zz_q"});
                std::string s;
                if (r.chance(8)) {
                    int k = r.range(1, 3); rx::P alt = rx::mk(rx::Node::ALT); s = "<<HEREX\n";
                    for (int j = 0; j < k; ++j) {
                        static const char* w[] = {"ab", "ba", "cab", "a", "bac", "aa"};
                        std::string word = w[r.below(6)]; rx::P sq = rx::mk(rx::Node::SEQ);
                        for (size_t q = 0; q < word.size(); ++q) { rx::P cl = rx::mk(rx::Node::CLS); cl->set.push_back(word[q]); cl->set.push_back(word[q] - 32); sq->k.push_back(cl); }
                        alt->k.push_back(sq); s += word + "\n";
                    }
                    s += "HEREX\n";
                    u.re = rx::mk(rx::Node::SEQ); u.re->k.push_back(alt);
                    rx::P d = rx::mk(rx::Node::LIT); d->c = '.'; u.re->k.push_back(d);
                    rx::P nl = rx::mk(rx::Node::NLOOK); nl->k.push_back(rx::mk(rx::Node::LETTER)); u.re->k.push_back(nl);
                } else s = ruleText(u);
                o += "@rule " + u.name + "/" + u.cat + " := " + s + "\n";
                if (r.chance(30)) o += "\n# a comment with @ inside\n";
                if (active) rules.push_back(u);
            } else if (x < 14) {
                std::string d = "Q" + std::string(1, "DEF"[r.below(3)]) + (r.chance(40) ? std::string(1, "DEF"[r.below(3)]) : std::string());
                if (defs.count(d) || flags.count(d)) continue;
                rx::P re = rx::elem(r, 1, false); std::string b = body(*re);
                if (r.chance(40) && !defNames.empty()) {
                    std::string d2 = r.pick(defNames); rx::P sq = rx::mk(rx::Node::SEQ); sq->k.push_back(re); sq->k.push_back(defRe[d2]); re = sq; b += " " + d2;
                }
                o += "@def " + d + " (?:" + b + ")\n";
                if (active) { defs[d] = b; defNames.push_back(d); defRe[d] = re; }
            } else if (x < 17 && depth > 0) {
                std::string f = "QFLAG" + std::string(1, "KLM"[r.below(3)]);
                bool have = flags.count(f) > 0;
                if (active && !have && r.chance(30)) { o += "@def " + f + " 1\n"; flags.insert(f); have = true; }
                bool neg = r.chance(40);
                o += std::string(neg ? "@ifndef " : "@ifdef ") + f + "\n";
                bool take = have != neg;
                std::set<std::string> keep = flags;
                block(o, depth - 1, r.range(0, 3), active && take);
                if (r.chance(60)) { o += "@else\n"; block(o, depth - 1, r.range(0, 3), active && !take); }
                o += "@endif\n";
            } else if (x < 18 && depth > 0) {
                std::string key = "inc" + str(fileNo++); std::string sub = "# included file\n";
                block(sub, depth - 1, r.range(0, 3), active);
                files[key] = sub;
                o += r.chance(50) ? "@include " + key + "\n" : "@include \"" + key + "\"\n";
            }
        }
    }
};

// the documented meaning of the limits
static bool pieces(const std::string& t, size_t from, size_t to, size_t hard, size_t soft, std::vector<std::pair<size_t, size_t> >& out) {
    size_t p = from;
    while (p < to) {
        size_t cut = to;
        if (soft && to - p >= soft) { size_t q = p + soft; while (q < to && t[q] != ' ') ++q; cut = std::min(cut, q); }
        if (hard && to - p >= hard) { size_t q = p + hard; while (q > p && q < t.size() && ((unsigned char)t[q] & 0xC0) == 0x80) --q; if (q == p) return false; cut = std::min(cut, q); }
        out.push_back(std::make_pair(p, cut)); p = cut;
    }
    return true;
}
struct Got { size_t from, to; std::string cat, text; std::vector<size_t> syms; };

void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "rules";
    std::vector<Rule> rules; Writer w(r, rules);
    std::string file = r.chance(50) ? "# header\n\n" : "\n";
    bool mainFirst = r.chance(50);
    if (mainFirst) file += "@rule main_regex/main_regex := .+\n";
    w.block(file, 3, r.range(1, c.thorough ? 14 : 8), true);
    if (!mainFirst) file += "@rule main_regex/main_regex := .\n";
    c.note("rules:\n" + file);
    std::map<std::string, boost::filesystem::path> mapping;
    for (std::map<std::string, std::string>::iterator i = w.files.begin(); i != w.files.end(); ++i) { put(tmpf((i->first + ".rgx").c_str()), i->second); mapping[i->first] = tmpf((i->first + ".rgx").c_str()); c.note("file " + i->first + ":\n" + i->second); }
    put(tmpf("main.rgx"), file);
    size_t hard = 0, soft = 0;
    if (r.chance(35)) hard = r.range(4, 12);
    if (r.chance(35)) soft = r.range(1, 10);
    if (hard && r.chance(15)) hard = r.range(1, 3);
    bool direct = r.chance(20);
    TpTokenizer tok("xx", tmpf("main.rgx"), mapping, hard, soft);
    int rounds = r.range(1, 4);
    for (int round = 0; round < rounds; ++round) {
        // one or more separate stretches of text, each with its text edge
        int frags = r.chance(70) ? 1 : r.range(2, 3);
        std::vector<rx::Txt> fr; std::vector<std::string> ft; std::string all;
        std::vector<std::pair<size_t, size_t> > span;
        for (int i = 0; i < frags; ++i) {
            rx::Txt t = rx::text(r, c.thorough ? 120 : 45); std::string s; for (size_t k = 0; k < t.size(); ++k) s += utf8(t[k]);
            if (s.empty()) continue;
            fr.push_back(t); ft.push_back(s); span.push_back(std::make_pair(all.size(), all.size() + s.size())); all += s;
        }
        c.note("text " + q(all) + " in " + str(span.size()) + " stretches, hard " + str(hard) + " soft " + str(soft));
        // expected
        std::vector<Got> want; bool refuses = false;
        for (size_t f = 0; f < fr.size() && !refuses; ++f) {
            std::vector<size_t> b = bounds(ft[f]); const rx::Txt& t = fr[f];
            size_t p = 0;
            while (p < t.size() && !refuses) {
                long e = -1; std::string cat = "X";
                for (size_t k = rules.size(); k-- > 0;) { long x = rx::match(*rules[k].re, t, p); if (x > (long)p) { e = x; cat = rules[k].cat; break; } }
                if (e < 0) e = p + 1;
                std::vector<std::pair<size_t, size_t> > ps;
                if (!pieces(ft[f], b[p], b[e], hard, soft, ps)) { refuses = true; break; }
                if (ps.size() > 1) c.count("tokens_cut_by_limits");
                for (size_t k = 0; k < ps.size(); ++k) { Got g; g.from = span[f].first + ps[k].first; g.to = span[f].first + ps[k].second; g.cat = cat; g.text = all.substr(g.from, g.to - g.from); want.push_back(g); }
                p = e;
            }
        }
        AnnotationItemManager aim; Lattice lat(aim);
        lat.appendStringWithSymbols(all);
        LayerTagCollection txt = lat.getLayerTagManager().createTagCollectionFromListWithLangCode(std::list<std::string>(1, "text"), "xx");
        for (size_t f = 0; f < span.size(); ++f) lat.addEdge(span[f].first, span[f].second, AnnotationItem("TEXT", StringFrag(ft[f])), txt);
        bool threw = false;
        try { tok.annotate(lat); } catch (Cutter::Exception&) { threw = true; }
        c.eq(threw, refuses, "refusal", "limit too small for a character");
        if (threw) { c.count("refused"); continue; }
        bool twice = r.chance(20); if (twice) tok.annotate(lat);      // a second run must change nothing
        std::vector<Got> got;
        LayerTagMask tm = lat.getLayerTagManager().getMask(lat.getLayerTagManager().createSingletonTagCollection("token"));
        Lattice::EdgesSortedBySourceIterator it(lat, tm);
        while (it.hasNext()) {
            Lattice::EdgeDescriptor d = it.next(); Got g;
            g.from = lat.getEdgeSource(d); g.to = lat.getEdgeTarget(d); g.cat = lat.getAnnotationCategory(d); g.text = lat.getAnnotationText(d);
            c.eq(lat.getEdgeText(d), g.text, "edge-text", "text under the token");
            std::list<Lattice::Partition> ps = lat.getEdgePartitions(d);
            c.expect(ps.size() == 1 || (twice && ps.size() == 2), "token-partitions", "one partition per run");
            Lattice::EdgeSequence::Iterator si(lat, ps.front().getSequence());
            size_t at = g.from;
            while (si.hasNext()) { Lattice::EdgeDescriptor s = si.next(); c.expect((size_t)lat.getEdgeSource(s) == at, "token-parts", "the parts of a token are contiguous symbols"); at = lat.getEdgeTarget(s); }
            c.eq(at, g.to, "token-parts", "the parts cover the token");
            std::list<std::string> tn = lat.getLayerTagManager().getTagNames(lat.getEdgeLayerTags(d));
            std::set<std::string> tset(tn.begin(), tn.end());
            c.expect(tset.size() == 2 && tset.count("token") && tset.count("!xx"), "token-tags", "a token is tagged token and !xx");
            got.push_back(g);
        }
        std::string gs, ws;
        for (size_t i = 0; i < got.size(); ++i) gs += "[" + str(got[i].from) + "-" + str(got[i].to) + " " + got[i].cat + " " + q(got[i].text) + "]";
        for (size_t i = 0; i < want.size(); ++i) ws += "[" + str(want[i].from) + "-" + str(want[i].to) + " " + want[i].cat + " " + q(want[i].text) + "]";
        c.eq(gs, ws, "tokens", "tokens");
        std::string joined; for (size_t i = 0; i < got.size(); ++i) joined += got[i].text;
        c.eq(joined, all, "joined", "the tokens joined");
        c.count("tokens", got.size()); c.count("texts");
        if (want.size() > 1) c.nontrivial = true;
        (void)direct;
    }
}
} // namespace vf
VF_MAIN

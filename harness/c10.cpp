// C10: quoters are inverted by their unescaping; escaped strings hold no bare special character.
#include "h.hpp"
#include "psi_quoter.hpp"
#include "utt_like_quoter.hpp"
#include "escaping.hpp"
#include "formats/utt/utt_quoter.hpp"
#include "formats/bracketing/bracketing-writer/bracketing_quoter.hpp"
#include <memory>
namespace vf {
void setup(const std::string&) {}

static std::string gen(Rng& r, const std::string& special) {
    std::string s; int n = r.size(40);
    int mode = r.range(0, 3);
    for (int i = 0; i < n; ++i) {
        if (mode == 0) s += (char)r.below(256);
        else if (mode == 1) s += special[r.below(special.size())];
        else if (mode == 2) s += r.chance(50) ? std::string(1, special[r.below(special.size())]) : utf8(rand_char(r));
        else s += utf8(rand_char(r));
    }
    return s;
}

void run_case(Ctx& c) {
    Rng& r = c.r;
    int which = r.range(0, 4);
    std::unique_ptr<Quoter> qt; std::string special, plain;     // special: characters that must not occur bare
    std::string extra;
    switch (which) {
        case 0: c.kind = "psi"; qt.reset(new PsiQuoter()); special = " \n\t\r*#"; break;
        case 1: c.kind = "utt"; qt.reset(new UTTQuoter()); special = " \n\t\r*"; break;
        case 2: { c.kind = "utt-like"; 
            static const char pool[] = "#:,;|=+[]<>/@!~%\xc4";
            int k = r.range(0, 4); for (int i = 0; i < k; ++i) { char ch = pool[r.below(sizeof(pool) - 1)]; if (extra.find(ch) == std::string::npos) extra += ch; }
            qt.reset(new UTTLikeQuoter(extra)); special = " \n\t\r*" + extra; break; }
        case 3: c.kind = "bracketing"; qt.reset(new BracketingQuoter()); special = "\n\t\r"; break;
        default: {
            // Escaping::isEscaped: a position is escaped iff an odd number of backslashes precedes it
            c.kind = "is-escaped";
            std::string s = gen(r, "\\\\\\a\"");
            c.note("isEscaped " + q(s));
            for (size_t pos = 0; pos <= s.size(); ++pos) {
                size_t k = 0; while (k < pos && s[pos - 1 - k] == '\\') ++k;
                c.expect(Escaping::isEscaped(s, pos) == (k % 2 == 1), "is-escaped", "isEscaped(" + q(s) + "," + str(pos) + ")");
            }
            c.nontrivial = s.find('\\') != std::string::npos;
            return;
        }
    }
    std::string pool = special + "\\_ntr";
    std::string s = gen(r, pool);
    c.note(c.kind + (extra.empty() ? "" : "(" + q(extra) + ")") + " " + q(s));
    std::string e = qt->escape(s);
    for (size_t i = 0; i < e.size(); ++i) {
        size_t k = 0; while (k < i && e[i - 1 - k] == '\\') ++k;
        bool esc = k % 2 == 1;
        // blanks are rewritten altogether; the rest may stand only after a backslash
        if (special.find(e[i]) != std::string::npos)
            c.expect(esc && std::string(" \n\t\r").find(e[i]) == std::string::npos, c.kind + ":bare-special", "escape(" + q(s) + ") = " + q(e) + " has a bare special character at " + str(i));
    }
    { size_t k = 0; while (k < e.size() && e[e.size() - 1 - k] == '\\') ++k; c.expect(k % 2 == 0, c.kind + ":dangling", "escape(" + q(s) + ") = " + q(e) + " ends in an open escape"); }
    std::string u;
    try { u = qt->unescape(e); } catch (std::exception& ex) { c.fail(c.kind + ":refused", "unescape(escape(" + q(s) + ")) = unescape(" + q(e) + ") throws"); }
    c.eq(u, s, c.kind + ":roundtrip", "unescape(escape(s)) with escape(s) = " + q(e));
    // concatenation: escaped pieces can be joined and still be undone
    std::string s2 = gen(r, pool);
    c.eq(qt->unescape(e + qt->escape(s2)), s + s2, c.kind + ":concat", "unescape(escape(s1)+escape(s2)), s2 = " + q(s2));
    // arbitrary strings: unescape returns or refuses with its own exception
    std::string w = gen(r, pool); c.note("unescape " + q(w));
    try {
        std::string v = qt->unescape(w); c.count("unescape_accepted");
        c.eq(qt->unescape(qt->escape(v)), v, c.kind + ":roundtrip2", "round trip of unescape(" + q(w) + ")");
        c.expect(v.size() <= w.size(), c.kind + ":grow", "unescape grew " + q(w));
    } catch (QuoterException&) { c.count("unescape_refused"); }
    c.nontrivial = e != s;
}
}
VF_MAIN

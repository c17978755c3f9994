// C16: case conversion against the Unicode case mappings (Perl's tables).
#include "h.hpp"
#include "case_converter_factory.hpp"
#include "string_case_converter_manager.hpp"
#include "simple_convert.hpp"
#include "casetab.hpp"
namespace vf {
static std::map<uint32_t, const CaseRow*> g_t; static std::vector<uint32_t> g_cased;
void setup(const std::string&) { for (size_t i = 0; i < sizeof(CASE_ROWS) / sizeof(CASE_ROWS[0]); ++i) { g_t[CASE_ROWS[i].c] = &CASE_ROWS[i]; g_cased.push_back(CASE_ROWS[i].c); } }
static std::string map1(int k, uint32_t u) { std::map<uint32_t, const CaseRow*>::iterator i = g_t.find(u); if (i == g_t.end()) return utf8(u); return k == 0 ? i->second->l : k == 1 ? i->second->u : i->second->t; }
// k: 0 lower, 1 upper, 2 title
static std::string conv(int k, bool turk, const std::vector<uint32_t>& s, size_t a, size_t b) {
    std::string o;
    for (size_t i = a; i < b; ++i) {
        uint32_t u = s[i], p = i > a ? s[i - 1] : 0xFFFFFFFF, n = i + 1 < b ? s[i + 1] : 0xFFFFFFFF;
        if (turk && k == 0) { if (u == 'I' && n != 0x307) { o += "\xC4\xB1"; continue; } if (u == 0x130) { o += "i"; continue; } if (u == 0x307 && p == 'I') continue; }
        if (turk && k != 0 && u == 'i') { o += "\xC4\xB0"; continue; }
        o += map1(k, u);
    }
    return o;
}
static std::string enc(const std::vector<uint32_t>& s, size_t a, size_t b) { std::string o; for (size_t i = a; i < b; ++i) o += utf8(s[i]); return o; }
typedef boost::shared_ptr<StringGeneralCaseConverter> SP;
static SP get(int k, const std::string& l) { StringCaseConverterManager& m = StringCaseConverterManager::getInstance(); return k == 0 ? m.getLowerCaseConverter(l) : k == 1 ? m.getUpperCaseConverter(l) : m.getTitleCaseConverter(l); }
void run_case(Ctx& c) {
    Rng& r = c.r; static const char* langs[] = {"pl", "en", "de", "tr", "az", "fr", "xx"}; std::string l = langs[r.below(7)]; bool turk = l == "tr" || l == "az"; c.kind = turk ? "turkish" : "regular";
    std::vector<uint32_t> s; bool touched = false;
    if (c.index < 1200) { c.kind = "sweep"; for (int i = 0; i < 100; ++i) { uint32_t u = (uint32_t)(c.index * 100 + i); if (u && valid_scalar(u)) s.push_back(u); } }    // every code point below U+1D4C0, in order
    else { int n = r.size(c.thorough ? 60 : 24); for (int i = 0; i < n; ++i) switch (r.range(0, 5)) { case 0: case 1: s.push_back(r.pick(g_cased)); break; case 2: { static const uint32_t x[] = {'I', 'i', 0x307, 0x130, 0x131, 'I', 0xDF, 0x149, 0x587, 0x1C5, 0x3C2, 0x1F80, 0xFB01, 0x10400, 0x1E9E}; s.push_back(x[r.below(15)]); break; } case 3: s.push_back('A' + r.below(58)); break; default: s.push_back(rand_char(r)); } }
    std::string in = enc(s, 0, s.size()); c.note(l + " " + q(in, 2000)); c.count("characters", (long)s.size());
    for (int k = 0; k < 3; ++k) {
        static const char* nm[] = {"lower", "upper", "title"}; SP cv = get(k, l); std::string want = conv(k, turk, s, 0, s.size()), got = simpleConvert(*cv, in);
        c.eq(got, want, nm[k], std::string(nm[k]) + " of " + q(in)); touched = touched || want != in; std::vector<uint32_t> d; c.expect(decode(got, d), "utf8", "not UTF-8: " + q(got));
        if (k < 2 && !turk) c.eq(simpleConvert(*cv, got), got, "idempotent", std::string(nm[k]) + " twice");
        size_t h = s.empty() ? 0 : 1; std::string hw = conv(k, turk, s, 0, h) + enc(s, h, s.size()), tw = enc(s, 0, h) + conv(k, turk, s, h, s.size());
        c.eq(simpleHeadConvert(*cv, in), hw, "head", std::string(nm[k]) + " of the first character of " + q(in)); c.eq(simpleTailConvert(*cv, in), tw, "tail", std::string(nm[k]) + " of all but the first character of " + q(in));
        bool t0 = want != in, t1 = hw != in, t2 = tw != in;
        c.eq(simpleWillBeTouchedWhenConverted(*cv, in), t0, "touched", std::string(nm[k]) + ": will " + q(in) + " change"); c.eq(simpleWillBeTouchedWhenHeadConverted(*cv, in), t1, "touched-head", std::string(nm[k]) + ": will the head of " + q(in) + " change"); c.eq(simpleWillBeTouchedWhenTailConverted(*cv, in), t2, "touched-tail", std::string(nm[k]) + ": will the tail of " + q(in) + " change");
        c.count("conversions");
    }
    bool lt = false; try { get(0, "lt"); } catch (PsiException&) { lt = true; } c.expect(lt, "unsupported", "Lithuanian is declared not handled");
    c.nontrivial = touched;
}
}
VF_MAIN

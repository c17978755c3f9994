// C15: globs against an own matcher, on names and on directory trees.
#include "h.hpp"
#include "segment_glob.hpp"
#include "ant_like_path_glob.hpp"
#include "file_fetcher.hpp"
#include <sys/types.h>
namespace vf {
static std::string g_dir;
void setup(const std::string&) { const char* t = getenv("VF_TMP"); g_dir = std::string(t ? t : "/tmp") + "/c15"; }
// the documented meaning, over characters
static bool gm(const std::vector<uint32_t>& g, const std::vector<uint32_t>& s) {
    std::vector<char> cur(s.size() + 1, 0), nx; cur[0] = 1;
    for (size_t i = 0; i < g.size(); ++i) {
        nx.assign(s.size() + 1, 0);
        if (g[i] == '*') { bool on = false; for (size_t j = 0; j <= s.size(); ++j) { on = on || cur[j]; nx[j] = on; } }
        else for (size_t j = 0; j < s.size(); ++j) if (cur[j] && (g[i] == '?' || g[i] == s[j])) nx[j + 1] = 1;
        cur = nx;
    }
    return cur[s.size()];
}
static bool gmatch(const std::string& g, const std::string& s) { std::vector<uint32_t> a, b; if (!decode(g, a) || !decode(s, b)) abort(); return gm(a, b); }
static std::string ch(Rng& r) { static const char* x[] = {"a", "b", "a", "b", "c", ".", "ż", "ó", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xC5\xBC", "\xC5\xBB", "[", "]", "-", " ", "\\", "1"}; return x[r.below(r.chance(60) ? 10 : 18)]; }
static std::string name(Rng& r, int n) { std::string s; int k = r.size(n); for (int i = 0; i < k; ++i) s += ch(r); return s; }
static std::string globFor(Rng& r, const std::string& s) {       // a glob made from a name, so that matches are common
    std::vector<uint32_t> c; decode(s, c); std::string g;
    for (size_t i = 0; i < c.size(); ++i) switch (r.range(0, 9)) {
        case 0: case 1: g += "?"; break; case 2: g += "*"; break; case 3: g += "*"; i += r.below(3); break; case 4: g += "*" + utf8(c[i]); break; case 5: if (r.chance(20)) g += ch(r); else g += utf8(c[i]); break; case 6: if (r.chance(15)) g += "?"; g += utf8(c[i]); break;
        default: g += utf8(c[i]);
    }
    if (r.chance(15)) g += "*"; if (r.chance(8)) g += "?"; if (r.chance(8)) g = "*" + g; if (r.chance(8)) g += ch(r);
    return g;
}
static std::string rglob(Rng& r, int n) { std::string g; int k = r.size(n); for (int i = 0; i < k; ++i) g += r.chance(30) ? "*" : r.chance(30) ? "?" : ch(r); return g; }
static void segments(Ctx& c) {
    Rng& r = c.r; c.kind = "segment"; long yes = 0;
    for (int k = 0; k < 12; ++k) {
        std::string s = r.chance(10) ? rand_text(r, 20) : name(r, c.thorough ? 24 : 12); s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
        std::string g = r.chance(75) ? globFor(r, s) : rglob(r, 8); SegmentGlob sg(g); bool want = gmatch(g, s);
        c.note("glob " + q(g) + " name " + q(s)); c.eq(sg.matches(s), want, "segment", "does " + q(g) + " match " + q(s)); yes += want; c.count(want ? "names_matched" : "names_not_matched");
        c.eq(sg.isFixed(), g.find_first_of("*?") == std::string::npos, "fixed", "is " + q(g) + " fixed");
        c.eq(sg.asString(), g, "as-string", "asString");
        std::string b = rand_bytes(r, 12); b = b.substr(0, b.find('\0')); sg.matches(b); SegmentGlob(globFor(r, name(r, 6)) + (r.chance(50) ? "?" : "")).matches(s + b);      // names that are not UTF-8: no over-read
    }
    c.nontrivial = yes >= 1;
}
struct Tree { std::string root; std::vector<std::string> dirs; std::set<std::string> files; };     // relative to the root
static void wipe(const std::string& d) { boost::system::error_code e; boost::filesystem::remove_all(d, e); }
static std::string fname(Rng& r) {
    static const char* x[] = {"a", "b", "ab", "aa", "foo", "bar", "test.txt", "a.txt", "b.txt", "x.gif", ".hid", "ż", "żó.txt", "\xE2\x82\xAC" "bc", "a b", "[a]", "lang.pl", "a*b", "ab?"};
    return r.chance(85) ? x[r.below(19)] : x[r.below(6)] + std::string(".") + x[r.below(6)];
}
static void mk(Ctx& c, Tree& t) {
    Rng& r = c.r; wipe(g_dir); mkdir(g_dir.c_str(), 0755); t.root = g_dir; t.dirs.push_back("");
    int nd = r.range(0, 6); std::set<std::string> used;
    for (int i = 0; i < nd; ++i) { std::string p = r.pick(t.dirs), n = fname(r); std::string f = p.empty() ? n : p + "/" + n; if (!used.insert(f).second || std::count(f.begin(), f.end(), '/') > 3) continue; mkdir((g_dir + "/" + f).c_str(), 0755); t.dirs.push_back(f); c.note("dir " + q(f)); }
    int nf = r.range(1, 12);
    for (int i = 0; i < nf; ++i) {
        std::string p = r.pick(t.dirs), n = fname(r); std::string f = p.empty() ? n : p + "/" + n; if (!used.insert(f).second) continue; std::string full = g_dir + "/" + f;
        int kind = r.range(0, 19);
        if (kind == 0) { if (symlink("no-such-target", full.c_str())) abort(); c.note("dangling " + q(f)); continue; }
        if (kind == 1) { if (mkfifo(full.c_str(), 0644)) abort(); c.note("fifo " + q(f)); continue; }
        if (kind == 2 && t.files.size()) { if (symlink((g_dir + "/" + *t.files.begin()).c_str(), full.c_str())) abort(); t.files.insert(f); c.note("link " + q(f)); continue; }
        FILE* h = fopen(full.c_str(), "w"); if (!h) abort(); fclose(h); t.files.insert(f); c.note("file " + q(f));
    }
}
static void split(const std::string& p, std::vector<std::string>& o) { o.clear(); size_t i = 0; for (;;) { size_t j = p.find('/', i); o.push_back(p.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; } }
static bool pm(const std::vector<std::string>& g, size_t i, const std::vector<std::string>& s, size_t j) {
    if (i == g.size()) return j == s.size();
    if (g[i] == "**") { if (i + 1 == g.size()) return j < s.size(); for (size_t k = j; k <= s.size(); ++k) if (pm(g, i + 1, s, k)) return true; return false; }
    if (j == s.size()) return false;
    bool fixed = g[i].find_first_of("*?") == std::string::npos;
    return (fixed ? g[i] == s[j] : gmatch(g[i], s[j])) && pm(g, i + 1, s, j + 1);
}
static std::string rpat(Ctx& c, const Tree& t) {
    Rng& r = c.r; std::vector<std::string> sg; std::string base;
    if (t.files.size() && r.chance(80)) { std::vector<std::string> f(t.files.begin(), t.files.end()); base = r.pick(f); } else base = r.pick(t.dirs).empty() ? fname(r) : r.pick(t.dirs) + "/" + fname(r);
    split(base, sg); std::vector<std::string> out;
    for (size_t i = 0; i < sg.size(); ++i) {
        bool last = i + 1 == sg.size();
        switch (r.range(0, 9)) {
            case 0: case 1: out.push_back("**"); if (r.chance(50) || last) { if (!(last && r.chance(40))) out.push_back(r.chance(50) ? sg[i] : globFor(r, sg[i])); } else if (r.chance(50)) { } break;
            case 2: case 3: case 4: out.push_back(globFor(r, sg[i])); break;
            case 5: out.push_back("*"); break;
            case 6: if (r.chance(30)) { out.push_back("**"); out.push_back("**"); } out.push_back(sg[i]); break;
            default: out.push_back(sg[i]);
        }
        if (out.size() && (out.back().empty() || out.back() == "." || out.back() == "..")) out.back() = "*";
    }
    std::string p; for (size_t i = 0; i < out.size(); ++i) p += (i ? "/" : "") + out[i]; return p;
}
static std::set<std::string> expect(const Tree& t, const std::string& pat) { std::set<std::string> w; std::vector<std::string> g, s; split(pat, g); for (std::set<std::string>::const_iterator f = t.files.begin(); f != t.files.end(); ++f) { split(*f, s); if (pm(g, 0, s, 0)) w.insert(t.root + "/" + *f); } return w; }
static std::string show(const std::set<std::string>& s) { std::string o; for (std::set<std::string>::const_iterator i = s.begin(); i != s.end(); ++i) o += *i + "\n"; return o; }
static void paths(Ctx& c) {
    Rng& r = c.r; c.kind = "path"; Tree t; mk(c, t); long hits = 0;
    for (int k = 0; k < 10; ++k) {
        std::string p = rpat(c, t); bool abs = r.chance(40); c.note("pattern " + q(p) + (abs ? " absolute" : ""));
        AntLikePathGlob g(abs ? t.root + "/" + p : p); std::set<boost::filesystem::path> got; g.allMatchingFiles(abs ? boost::filesystem::path("somewhere") : boost::filesystem::path(t.root), got);
        std::set<std::string> gs; for (std::set<boost::filesystem::path>::iterator i = got.begin(); i != got.end(); ++i) gs.insert(i->string());
        std::set<std::string> w = expect(t, p); c.eq(show(gs), show(w), "path", "files matching " + q(p)); hits += w.size(); c.count("files_matched", (long)w.size()); c.count("patterns_walked");
    }
    // several globs, parameters
    for (int k = 0; k < 3; ++k) {
        int n = r.range(1, 3); std::set<std::string> w; std::string spec; FileFetcher ff; ff.addParam("ROOT", t.root); std::map<std::string, std::string> ps; ps["ROOT"] = t.root;
        for (int i = 0; i < n; ++i) {
            std::string p = rpat(c, t); std::set<std::string> x = expect(t, p); w.insert(x.begin(), x.end());
            if (r.chance(50) && p.size() > 1) { std::vector<size_t> b = bounds(p); size_t a = b[r.below(b.size())], e = b[r.below(b.size())]; if (a > e) std::swap(a, e); std::string nm = std::string("P") + (char)('0' + k) + (char)('0' + i); ff.addParam(nm, p.substr(a, e - a)); p = p.substr(0, a) + "%" + nm + "%" + p.substr(e); }
            spec += (i ? std::string(r.chance(50) ? "," : ";") : std::string()) + "%ROOT%/" + p;
        }
        c.note("spec " + q(spec)); std::vector<boost::filesystem::path> got; ff.getFiles(spec, std::back_inserter(got)); std::set<std::string> gs; for (size_t i = 0; i < got.size(); ++i) c.expect(gs.insert(got[i].string()).second, "fetch-twice", "file given twice: " + got[i].string());
        c.eq(show(gs), show(w), "fetch", "files of " + q(spec)); c.count("fetches");
        std::string one; bool thrown = false; try { one = ff.getOneFile(spec).string(); } catch (FileFetcher::Exception&) { thrown = true; }
        c.eq(thrown, w.size() != 1, "fetch-one", "exactly one file wanted, " + str(w.size()) + " match"); if (!thrown) c.eq(one, *w.begin(), "fetch-one", "the one file");
        bool bad = false; try { std::vector<boost::filesystem::path> x; ff.getFiles(spec + (r.chance(50) ? "%NOPE%" : "%"), std::back_inserter(x)); } catch (FileFetcher::Exception&) { bad = true; } c.expect(bad, "fetch-param", "an unknown parameter or a single % was accepted");
    }
    wipe(g_dir); c.nontrivial = hits >= 1;
}
void run_case(Ctx& c) { if (c.r.chance(70)) segments(c); else paths(c); }
}
VF_MAIN

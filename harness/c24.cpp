// C24: hostile bytes into every text reader and the processors behind it; the process must live, end, and leave a sound lattice.
#include "annot.hpp"
#include "lattice_reader.hpp"
#include "lattice_writer.hpp"
#include <boost/filesystem.hpp>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
namespace {
namespace fs = boost::filesystem;
struct Seed { std::string name, bytes; };
std::map<std::string, std::vector<Seed> > corpus;                 // by extension
std::map<std::string, Made> kept;
const char* HOSTILE[] = {"\x00", "\xff", "\xfe\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\x80", "\xbf\xbf", "\n", "\r\n", "\n\n", "\t", " ", "\\", "\\x", "\\q", "\"", "'", "&", "&amp;", "&#", "&#x;", "<", "</", ">", "<!--", "-->", "]]>", "[", "]", "(", ")", ",", ",,", "=", ":", "::", ";", "|", "*", "#", "##", "@", "$", "%s%n", "{", "}", "-1", "0", "00", "1", "9999", "-", ".", "...", "a", "Ż", "ż́", "\xef\xbb\xbf", "\xe2\x80\x8b", "\xf0\x9f\x98\x80", "http://", "www.", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "(((((((((((((((((((((", "<b><b><b><b><b><b>", "...............", "1.1.1.1.1.1.1.1", "BOS *", "EOS *", "W ", "FRAG[]", "TEXT[1]", "token", "!pl", "0000 01", "@1", "<0>", "[1(a),<3>]", "x=\"", "_", "\\_", "\\n", "\x01\x02\x03\x04\x05", "\x7f", "\x1b[0m"};
std::string hostile(Rng& r) { size_t i = r.below(sizeof HOSTILE / sizeof *HOSTILE); return i ? std::string(HOSTILE[i]) : std::string(1, '\0'); }
std::string words(Rng& r, int n) {
    static const char* W[] = {"Ala", "ma", "kota", "nr", "12", "3,5", "tys.", "zł", "Prof.", "się", "the", "cat", "Mr.", "żółć", "stoi", "10%", "km/h", "http://x.pl/a?b=c", "a@b.pl", "XIV", "w.", "-", "(", ")", "„", "”", "...", "18.02.2010", "22-30", "A.B.C.", "ul.", "m.in.", "o'clock", "d’Artagnan", "ÀÉÎ", "日本", "‮", "\xef\xbb\xbf"};
    std::string s; for (int i = 0; i < n; ++i) { s += r.chance(8) ? rand_text(r, 6) : W[r.below(sizeof W / sizeof *W)]; int k = r.range(0, 9); s += k < 6 ? " " : k == 6 ? "\n" : k == 7 ? "" : k == 8 ? ". " : "  "; } return s;
}
// numbers that would be lengths and positions are kept small: a text of two billion characters may take long
void tame(std::string& s) { int run = 0; for (size_t i = 0; i < s.size(); ) { if (s[i] >= '0' && s[i] <= '9') { if (++run > 4) { s.erase(i, 1); continue; } } else run = 0; ++i; } }
std::string mutate(Rng& r, std::string s, size_t max) {
    if (s.size() > max) { size_t b = r.chance(60) ? 0 : r.below(s.size() - max); s = s.substr(b, max); }
    for (int n = r.chance(50) ? r.range(1, 2) : r.range(1, 12); n > 0; --n) {
        size_t at = r.below(s.size() + 1), len = std::min(s.size() - at, (size_t)1 + r.below(r.chance(70) ? 8 : 200));
        switch (r.below(10)) {
            case 0: case 1: case 2: s.insert(at, hostile(r)); break;
            case 3: s.erase(at, len); break;
            case 4: if (len) s[at] = (char)r.below(256); break;
            case 5: if (len) s[at] ^= (char)(1 << r.below(8)); break;
            case 6: s.insert(r.below(s.size() + 1), s.substr(at, len)); break;
            case 7: { std::string p = s.substr(at, len); for (int k = r.range(1, 20); k > 0 && s.size() < max * 2; --k) s.insert(at, p); break; }
            case 8: s.resize(at); break;
            default: { std::string h = hostile(r); for (int k = r.range(1, r.chance(90) ? 10 : 300); k > 0 && s.size() < max * 2; --k) s.insert(at, h); }
        }
        if (s.size() > max * 2) s.resize(max * 2);
    }
    return s;
}
// rows in the manner of the format
std::string psi(Rng& r) {
    std::string o; size_t pos = 0; int n = r.range(0, 12); bool wild = r.chance(45); static const char* TAGS[] = {"frag,txt-reader", "token", "!pl,token", "lemma", "text", "symbol", "a,b", ""};
    std::vector<std::pair<size_t, size_t> > spans;
    for (int i = 1; i <= n; ++i) {
        auto odd = [&](int pc) { return r.chance(wild ? pc : 1); };
        std::string t = odd(20) ? rand_text(r, 4) : words(r, 1); for (size_t k = 0; k < t.size(); ++k) if (t[k] == ' ') t[k] = '_'; else if (t[k] == '\n') t[k] = '.';
        size_t from = pos, len = t.size(); bool again = i > 1 && r.chance(35); int first = 0;
        if (again) { first = (int)r.below(spans.size()); from = spans[first].first; len = spans[first].second; t = "*"; if (r.chance(50)) { size_t k = first; while (k + 1 < spans.size() && spans[k + 1].first == from + len && r.chance(60)) { ++k; len += spans[k].second; } } }
        char b[64]; int p = odd(25) ? r.range(0, 60) : (int)from; snprintf(b, sizeof b, "%02d %04d%s %02d%s ", odd(15) ? r.range(0, 20) : i, p, odd(8) ? "*" : "", odd(20) ? r.range(0, 40) : (int)len, odd(5) ? "*" : ""); if (odd(8)) { snprintf(b, sizeof b, "%02d @%d %s%d ", i, r.range(0, 4), r.chance(50) ? "@" : "", r.range(0, 5)); }
        std::string v = r.chance(30) ? "*" : t, a = odd(40) ? hostile(r) : "T"; if (r.chance(40)) a += std::string(",number=") + (odd(20) ? hostile(r) : "sg"); if (r.chance(15)) a += ",<" + str(r.range(-9, 9)) + ">";
        if (again || odd(60)) { a += "["; if (wild) for (int k = r.range(0, 3); k > 0; --k) a += str(r.range(0, n)) + (r.chance(20) ? "(token)" : "") + (r.chance(10) ? ",<1.5>" : "") + (k > 1 ? (r.chance(70) ? "-" : ",") : ""); else a += str(first + 1); a += "]"; }
        o += b + (t.empty() ? "∅" : t) + " " + TAGS[r.below(8)] + " " + v + " " + a + "\n"; if (!again) pos += len; spans.push_back(std::make_pair(from, len));
    }
    return o;
}
std::string utt(Rng& r) {
    std::string o; int pos = 0;
    for (int n = r.range(0, 14); n > 0; --n) { std::string w = words(r, 1); for (size_t k = 0; k < w.size(); ++k) if (w[k] == ' ' || w[k] == '\n') w[k] = '_'; int len = r.chance(70) ? (int)bounds(w).size() - 1 : r.range(0, 12), k = r.below(9);
        if (r.chance(85)) o += str(r.chance(80) ? pos : r.range(0, 60)) + " "; if (r.chance(85)) o += str(len) + " ";
        o += (k < 5 ? "W " : k == 5 ? "P " : k == 6 ? "BOS " : k == 7 ? "EOS " : "S ") + (r.chance(15) ? std::string("*") : w); if (r.chance(40)) o += " lem:" + w + (r.chance(30) ? "," : "") + (r.chance(50) ? " x:" + hostile(r) : ""); o += "\n"; pos += len; }
    return o;
}
std::string xml(Rng& r, int depth) { static const char* N[] = {"b", "p", "i", "body", "div", "br", "script", "style", "a href=\"x\"", "text:p", "w:t", "t"}; std::string o; for (int n = r.range(0, 4); n > 0; --n) { if (depth && r.chance(50)) { std::string e = N[r.below(12)]; o += "<" + e + (r.chance(10) ? "/" : "") + ">" + xml(r, depth - 1); if (r.chance(90)) o += "</" + e.substr(0, e.find(' ')) + ">"; } else o += r.chance(85) ? words(r, r.range(1, 5)) : hostile(r); } return o; }
std::string nkjp(Rng& r) {
    std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<teiCorpus xmlns:nkjp=\"x\"><TEI><text><body>";
    for (int p = r.range(0, 3); p > 0; --p) { o += r.chance(80) ? "<p>" : "<div>"; for (int s = r.range(0, 3); s > 0; --s) { o += r.chance(85) ? "<s>" : "<ab>"; if (r.chance(70)) o += words(r, r.range(1, 3)); for (int g = r.range(0, 4); g > 0; --g) { if (r.chance(50)) o += "<!-- " + words(r, r.range(0, 2)) + " -->"; o += "<seg corresp=\"text_structure.xml#string-range(p-1," + (r.chance(80) ? str(r.range(0, 30)) + "," + str(r.range(0, 8)) : hostile(r)) + ")\" nkjp:nps=\"" + (r.chance(50) ? "true" : "") + "\">";
            if (r.chance(70)) { static const char* F[] = {"orth", "interps", "disamb", "base", "ctag", "msd", "interpretation", "x"}; o += "<fs type=\"morph\">"; for (int f = r.range(0, 5); f > 0; --f) { o += std::string("<f name=\"") + F[r.below(8)] + "\">"; int k = r.below(5); o += k == 0 ? "<string>" + words(r, 1) + "</string>" : k == 1 ? "<symbol value=\"" + std::string(r.chance(80) ? "sg:nom:m3" : "") + "\" xml:id=\"m1\"/>" : k == 2 ? "<vAlt><symbol value=\"sg:nom\"/><symbol/></vAlt>" : k == 3 ? "<fs feats=\"\" fVal=\"" + std::string(r.chance(50) ? "#m1" : "") + "\"><f name=\"base\"><string>" + words(r, 1) + "</string></f><f name=\"ctag\"><symbol value=\"subst\"/></f><f name=\"msd\"><symbol value=\"" + (r.chance(70) ? "sg:nom:m1" : hostile(r)) + "\"/></f></fs>" : hostile(r); o += "</f>"; } o += "</fs>"; }
            o += "</seg>"; } o += "</s>"; } o += "</p>"; }
    return o + "</body></text></TEI></teiCorpus>";
}
std::string pickbytes(Ctx& c, const char* ext, size_t max) { std::vector<Seed>& v = corpus[ext]; if (v.empty()) return words(c.r, 10); const Seed& s = c.r.pick(v); c.note("from " + s.name); return s.bytes; }
bool rows = false;                                                 // the edges' places come from the input
void sound(Ctx& c, Lattice& l, const std::string& after) {
    std::vector<uint32_t> cp; LView v; if (!decode(l.getAllText(), cp)) { c.count("lattices of invalid UTF-8"); return; }
    if (rows) { try { v = view(l); } catch (std::exception& e) { c.count("lattices with edges that cut characters"); return; } } else v = view(l);   // rows may give places inside a character: asking for the edges reports them
    int n = (int)v.text.size();
    for (size_t i = 0; i < v.e.size(); ++i) {
        const EView& e = v.e[i]; c.expect(e.from <= n && e.to <= n, "outside", after + ": an edge beyond the end of the text: " + e.show());
        for (size_t p = 0; p < e.parts.size(); ++p) for (size_t k = 0; k < e.parts[p].links.size(); ++k) c.expect(v.idOf(e.parts[p].links[k]) >= 0, "part", after + ": a part of " + e.show() + " is no edge");
    }
    { int x = cyclic(v); c.expect(x < 0, "cycle", after + ": an edge consists of itself: " + (x < 0 ? "" : v.e[x].show())); }
    c.count("edges seen", (long)v.e.size());
}
}
namespace {
void control_words(Ctx& c) {      // in a process of its own, for it crashes
    std::string in = "{\\rtf1 {\\f0"; for (int i = 0; i < 100000; ++i) in += "\\b "; in += "}}";
    pid_t p = fork(); if (p < 0) return;
    if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); struct rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); alarm(100);
        try { AnnotationItemManager aim; Lattice la(aim); ProcessorFactory* f = factory("apertium-reader"); std::unique_ptr<Processor> r(f->createProcessor(options(f, {"--format", "rtf"}))); std::istringstream is(in); dynamic_cast<LatticeReader<std::istream>&>(*r).readIntoLattice(is, la); } catch (std::exception&) {} _exit(0); }
    int st = 0; waitpid(p, &st, 0); c.expect(WIFEXITED(st) && WEXITSTATUS(st) == 0, "rtf-control-words", "100000 control words in one group of an RTF document");
}
AddProbe pr1("rtf-control-words", control_words);
}
namespace vf {
void setup(const std::string&) {
    std::string root = getenv("VF_REPO"); std::vector<std::string> files; static const char* D[] = {"formats", "tools"};
    for (int d = 0; d < 2; ++d) for (fs::recursive_directory_iterator i(root + "/" + D[d]), e; i != e; ++i) { std::string n = i->path().filename().string(), p = i->path().string(); if (n.find(".in.") == std::string::npos || p.find("/m/") == std::string::npos || !fs::is_regular_file(i->path()) || fs::file_size(i->path()) > 60000) continue; files.push_back(p); }
    std::sort(files.begin(), files.end());
    for (size_t i = 0; i < files.size(); ++i) { std::ifstream f(files[i].c_str(), std::ios::binary); Seed s; s.name = files[i].substr(root.size() + 1); s.bytes.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); corpus[files[i].substr(files[i].rfind('.') + 1)].push_back(s); }
}
void run_case(Ctx& c) {
    Rng& r = c.r; size_t max = r.chance(c.thorough ? 80 : 92) ? 400 : 4000; std::string in, rd; Args ra; int k = r.below(20);
    if (k < 5) { rd = "txt-reader"; static const char* O[] = {"--whole-text", "--line-by-line", "--paragraphs", "--discard-comments", "--pass-through-comments"}; if (r.chance(50)) ra.push_back(O[r.below(2)]); in = r.chance(50) ? words(r, r.range(0, 30)) : pickbytes(c, "txt", max); }
    else if (k < 10) { rd = "psi-reader"; in = r.chance(60) ? psi(r) : pickbytes(c, "psi", max); }
    else if (k < 13) { rd = "utt-reader"; in = r.chance(70) ? utt(r) : pickbytes(c, "utt", max); }
    else if (k < 16) { rd = "apertium-reader"; static const char* F[] = {"html", "html", "rtf", "odt", "docx", "pptx", "xlsx", "latex"}; std::string f = F[r.below(8)]; ra = {"--format", f}; if (r.chance(40)) ra.push_back("--keep-tags"); bool unzip = r.chance(30); if (!unzip) { ra.push_back("--unzip-data"); ra.push_back("false"); }
        in = unzip && (f == "docx" || f == "pptx" || f == "xlsx") ? pickbytes(c, f.c_str(), 100000) : r.chance(40) ? xml(r, 4) : pickbytes(c, f == "rtf" ? "rtf" : f == "html" ? "html" : "xml", max); if (unzip) max = 20000; }
    else if (k < 18) { rd = "nkjp-reader"; in = r.chance(70) ? nkjp(r) : pickbytes(c, "xml", max); }
    else { rd = "guessing-reader"; if (r.chance(30)) { ra.push_back("--block-size"); ra.push_back(str(r.range(1, 2000))); } static const char* X[] = {"txt", "psi", "utt", "html", "rtf", "xml", "docx", "pptx", "xlsx"}; in = r.chance(20) ? psi(r) : pickbytes(c, X[r.below(9)], max); }
    bool lengthy = r.chance(c.thorough ? 3 : 1) && rd != "nkjp-reader";   // one thing said very many times: recursion and quadratic work show
    if (lengthy) { std::string u = r.chance(50) ? hostile(r) : words(r, 1); if (u.size() > 12) u.resize(12); if (in.compare(0, 5, "{\\rtf") == 0) u = "a{b} "; /* see the probe */ in = in.substr(0, r.below(std::min<size_t>(in.size(), 200) + 1)); size_t n = r.range(2000, 12000); while (in.size() < n) in += u; if (rd == "guessing-reader" && r.chance(70)) { ra.clear(); ra.push_back("--block-size"); ra.push_back(str(n + 10)); } c.count("long inputs"); }
    else if (r.chance(65)) in = mutate(r, in, max); if (r.chance(5)) { in.clear(); for (int n = r.range(0, 300); n > 0; --n) in += (char)r.below(256); }
    tame(in); c.kind = rd; std::string show = rd; for (size_t i = 0; i < ra.size(); ++i) show += " " + ra[i]; c.note(show + " on " + q(in, 6000));
    AnnotationItemManager aim; Lattice l(aim); rows = rd == "psi-reader" || rd == "guessing-reader";
    try {
        { ProcessorFactory* f = factory(rd); std::unique_ptr<Processor> p(f->createProcessor(options(f, ra))); std::istringstream is(in); dynamic_cast<LatticeReader<std::istream>&>(*p).readIntoLattice(is, l); }
        c.count(("read by " + rd).c_str()); c.nontrivial = !in.empty(); sound(c, l, rd);
    } catch (Violation&) { throw; } catch (std::exception& e) { c.note(std::string("it reports: ") + e.what()); c.count(("reported by " + rd).c_str()); sound(c, l, rd + " failing"); c.nontrivial = true; return; }   // the pipeline ends here
    if (l.getAllText().size() > 8000 && !c.thorough) return;
    int n = r.range(0, 4);
    for (int i = 0; i < n; ++i) {
        std::string name; Args a; std::string lang = r.chance(70) ? "pl" : r.chance(50) ? "en" : "xx";
        switch (r.below(9)) {
            case 0: case 1: case 2: name = "tp-tokenizer"; if (lang == "xx") lang = "de"; a = {"--lang", lang}; break;
            case 3: case 4: name = "srx-segmenter"; a = {"--lang", lang == "xx" ? "de" : lang}; break;
            case 5: name = "lang-guesser"; if (r.chance(50)) a = {"--force"}; break;
            case 6: name = "simplenorm-normalizer"; a = {"--lang", "pl"}; break;
            case 7: name = "morfologik"; a = {"--level", str(r.range(0, 3))}; break;
            default: name = r.chance(50) ? "puddle" : "detok"; if (name == "puddle") a = {"--lang", "pl"}; break;
        }
        std::string s = name; for (size_t z = 0; z < a.size(); ++z) s += " " + a[z];
        if (name == "puddle" && l.getAllText().size() > 1500) continue;   // some 60 ms per token under the sanitizer
        c.note("then " + s);
        if (!kept.count(s)) kept[s] = make(name, a);
        try { kept[s].p->annotate(l); c.count(("run of " + name).c_str()); } catch (Violation&) { throw; } catch (std::exception& e) { c.note(std::string("it reports: ") + e.what()); c.count(("reported by " + name).c_str()); }
        sound(c, l, name);
    }
    for (int w = r.range(0, 2); w >= 0; --w) {
        static const char* W[] = {"psi-writer", "simple-writer", "json-simple-writer", "dot-writer", "bracketing-writer", "morphology-writer", "phrases-writer"}; std::string name = W[r.below(7)]; Args a;
        if (name == "simple-writer" || name == "json-simple-writer") { if (r.chance(50)) { a.push_back("--tags"); a.push_back(r.chance(50) ? "token" : r.chance(50) ? "symbol" : "form"); } if (r.chance(30)) a.push_back("--with-blank"); }
        if (name == "dot-writer" || name == "psi-writer") { if (r.chance(30) && name == "dot-writer") a.push_back("--show-tags"); }
        c.note("written by " + name);
        try { std::ostringstream os; ProcessorFactory* f = factory(name); std::unique_ptr<Processor> p(f->createProcessor(options(f, a))); dynamic_cast<LatticeWriter<std::ostream>&>(*p).writeLattice(l, os); c.count(("written by " + name).c_str()); c.count("bytes written", (long)os.str().size()); }
        catch (Violation&) { throw; } catch (std::exception& e) { c.note(std::string("it reports: ") + e.what()); c.count(("reported by " + name).c_str()); }
    }
}
}
VF_MAIN

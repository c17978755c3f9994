// C20: a pipeline is the composition of its processors, in every spelling, run after run; malformed ones are refused.
#include "h.hpp"
#include "pipe_runner.hpp"
#include "main_factories_keeper.hpp"
#include "split_pipeline.hpp"
#include "shallow_aliaser.hpp"
#include "lattice.hpp"
#include "annotator.hpp"
#include "lattice_reader.hpp"
#include "lattice_writer.hpp"
#include <boost/program_options/parsers.hpp>
#include <memory>
using namespace vf;
typedef std::vector<std::string> Args;
typedef std::pair<std::string, Args> Opt;                 // name without dashes, values
struct El { std::string name; std::vector<Opt> opts; };
typedef std::vector<El> Chain;

namespace {
Args args_of(Rng& r, const Chain& ch, bool vary) {
    Args a;
    for (size_t i = 0; i < ch.size(); ++i) {
        if (i) a.push_back("!");
        a.push_back(ch[i].name);
        std::vector<Opt> o = ch[i].opts;
        if (vary) for (size_t k = o.size(); k > 1; --k) std::swap(o[k - 1], o[r.below(k)]);
        for (size_t k = 0; k < o.size(); ++k) {
            if (vary && o[k].second.size() == 1 && !o[k].second[0].empty() && r.chance(40)) { a.push_back("--" + o[k].first + "=" + o[k].second[0]); continue; }
            a.push_back("--" + o[k].first);
            for (size_t j = 0; j < o[k].second.size(); ++j) a.push_back(o[k].second[j]);
        }
    }
    return a;
}
std::string quoted(Rng& r, const std::string& s) {
    bool need = s.empty() || s.find_first_of(" \n\t\"\\") != std::string::npos;
    std::string o; bool qt = need || r.chance(20);
    // blanks need the quotes; quotes, backslashes and line ends have escapes
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '"' || s[i] == '\\') { o += '\\'; o += s[i]; }
        else if (s[i] == '\n' && r.chance(50)) o += "\\n";
        else o += s[i];
    }
    return qt ? "\"" + o + "\"" : o;
}
std::string string_of(Rng& r, const Args& a) { std::string s; for (size_t i = 0; i < a.size(); ++i) s += (i ? " " : "") + quoted(r, a[i]); return s; }
std::string show(const Args& a) { std::string s; for (size_t i = 0; i < a.size(); ++i) s += " " + q(a[i]); return s; }
typedef std::shared_ptr<PipeRunner> Runner;
std::string run_stream(PipeRunner& p, const std::string& in) { std::istringstream i(in); std::ostringstream o; p.run(i, o); return o.str(); }
Runner by_args(const Args& a) { return Runner(new PipeRunner(a)); }
Runner by_argv(const Args& a) {
    Args b = a; b.insert(b.begin(), "psi-pipe"); std::vector<char*> v; for (size_t i = 0; i < b.size(); ++i) v.push_back(const_cast<char*>(b[i].c_str())); v.push_back(0);
    return Runner(new PipeRunner((int)b.size(), &v[0]));
}
Runner by_string(const std::string& s) { return Runner(new PipeRunner(s)); }

// the composition, spelled out
std::string direct(const Chain& ch, const std::string& in) {
    AnnotationItemManager aim; Lattice lattice(aim); std::istringstream is(in); std::ostringstream os;
    for (size_t i = 0; i < ch.size(); ++i) {
        std::list<ProcessorFactory*> f = MainFactoriesKeeper::getInstance().getProcessorFactoriesForName(ch[i].name);
        if (f.size() != 1) throw std::runtime_error("harness: no single processor named " + ch[i].name);
        Args a; for (size_t k = 0; k < ch[i].opts.size(); ++k) { a.push_back("--" + ch[i].opts[k].first); a.insert(a.end(), ch[i].opts[k].second.begin(), ch[i].opts[k].second.end()); }
        boost::program_options::options_description d = f.front()->optionsHandled();
        boost::program_options::variables_map m; boost::program_options::store(boost::program_options::command_line_parser(a).options(d).run(), m); boost::program_options::notify(m);
        std::unique_ptr<Processor> p(f.front()->createProcessor(m));
        if (i == 0) dynamic_cast<LatticeReader<std::istream>&>(*p).readIntoLattice(is, lattice);
        else if (i + 1 == ch.size()) dynamic_cast<LatticeWriter<std::ostream>&>(*p).writeLattice(lattice, os);
        else dynamic_cast<Annotator&>(*p).annotate(lattice);
    }
    return os.str();
}

Opt opt(const std::string& n) { return Opt(n, Args()); }
Opt opt(const std::string& n, const std::string& v) { return Opt(n, Args(1, v)); }
El el(const std::string& n) { El e; e.name = n; return e; }
// a value a user may want: blanks, quotes, separators of the pipeline language
std::string value(Rng& r, bool backslash) {
    static const char* V[] = {"", " ", "  ", "\t", "\n", " ! ", "!!", "\"", "a\"b", "\" \"", "'", ",", ";", " tokenize ", "a ! tokenize ! b", "\\n", "|", "x y", " x", "x ", "\nx\n", "get", "a=b", "=", "zażółć", "%", "#", "$HOME", "*", "get-tokens ! x", " get-tokens ", " write-xml "};
    if (backslash && r.chance(35)) { static const char* B[] = {"\\", "\\t", "a\\b", "\\\\", "\\\\n", "\\ ", "\\\""}; return B[r.below(7)]; }
    if (r.chance(70)) return V[r.below(sizeof V / sizeof *V)];
    for (;;) { std::string s = rand_text(r, 6); if (!s.empty() && s[0] != '-' && s != "!" && s.find('\\') == std::string::npos && s.find('\0') == std::string::npos) return s; }
}
const char* LANGS[] = {"pl", "en", "de", "es", "fr", "it", "ru"};
bool cheap(const std::string& l) { return l == "pl" || l == "en"; }
El reader(Rng& r) {
    El e = el("txt-reader");
    // (--line-by-line is taken by the runner: see the probe)
    if (r.chance(40)) e.opts.push_back(opt(r.chance(50) ? "whole-text" : "paragraphs"));
    return e;
}
El tokenizer(Rng& r, const std::string& l) {
    El e = el("tp-tokenizer"); e.opts.push_back(opt("lang", l));
    if (r.chance(25)) e.opts.push_back(opt("token-length-hard-limit", str(r.range(5, 40))));
    if (r.chance(25)) e.opts.push_back(opt("token-length-soft-limit", str(r.range(4, 30))));
    return e;
}
El segmenter(Rng& r, const std::string& l) {
    El e = el("srx-segmenter"); e.opts.push_back(opt("lang", l));
    if (r.chance(20)) e.opts.push_back(opt("sentence-length-hard-limit", str(r.range(20, 90))));
    if (r.chance(20)) e.opts.push_back(opt("cascade"));
    return e;
}
El writer(Rng& r, bool backslash, bool plain) {
    int k = plain ? r.range(0, 1) : r.range(0, 3);
    if (k == 0) {
        El e = el("simple-writer");
        static const char* T[] = {"token", "segment", "frag", "symbol", "text", "lemma", "token;segment", "form"};
        // (the order of edges of different lengths that start together is not kept by the psi format: plain writers show one kind)
        if (plain || r.chance(80)) e.opts.push_back(opt("tags", T[plain ? r.below(4) : r.below(8)]));
        if (r.chance(60)) e.opts.push_back(opt("sep", value(r, backslash)));
        if (r.chance(40)) e.opts.push_back(opt("alt-sep", value(r, backslash)));
        if (r.chance(20)) e.opts.push_back(opt("linear"));
        if (r.chance(20)) e.opts.push_back(opt("no-alts"));
        if (r.chance(20)) e.opts.push_back(opt("with-blank"));
        if (r.chance(25)) { Args a; a.push_back(r.chance(50) ? "segment" : "frag"); a.push_back(value(r, backslash)); if (a[1].empty()) a[1] = ";"; e.opts.push_back(Opt("spec", a)); }
        return e;
    }
    if (k == 1) {
        El e = el("bracketing-writer"); e.opts.push_back(opt("show-attributes", "none"));
        if (r.chance(60)) e.opts.push_back(opt("opening-bracket", value(r, backslash) + (r.chance(50) ? "%T" : "")));
        if (r.chance(60)) e.opts.push_back(opt("closing-bracket", value(r, backslash)));
        if (plain || r.chance(60)) e.opts.push_back(opt("tags", r.chance(50) ? "token" : "segment"));
        if (r.chance(40)) e.opts.push_back(opt("skip-symbol-edges"));
        if (r.chance(30)) e.opts.push_back(opt("tag-separator", value(r, backslash)));
        return e;
    }
    if (k == 2) { El e = el("psi-writer"); if (r.chance(40)) e.opts.push_back(opt("no-header")); return e; }
    El e = el("json-simple-writer"); if (r.chance(60)) e.opts.push_back(opt("tags", r.chance(50) ? "token" : "segment,token")); return e;
}
Chain chain(Rng& r, std::string& lang, bool backslash, bool plainw, bool guess) {
    Chain ch; ch.push_back(reader(r));
    lang = LANGS[r.chance(70) ? r.below(2) : r.below(7)];
    bool any = r.chance(85);
    if (any && guess) { El g = el("lang-guesser"); g.opts.push_back(opt("force")); g.opts.push_back(opt("only-langs", lang)); ch.push_back(g); }
    if (any) {
        bool tok = r.chance(80), seg = !tok || r.chance(40);
        if (seg && r.chance(50)) { ch.push_back(segmenter(r, lang)); seg = false; }
        if (tok) ch.push_back(tokenizer(r, lang));
        if (seg) ch.push_back(segmenter(r, lang));
        if (tok && lang == "pl" && r.chance(25)) { El e = el("simplenorm-normalizer"); e.opts.push_back(opt("lang", "pl")); ch.push_back(e); }
        if (tok && lang == "pl" && r.chance(6)) { El e = el("morfologik"); e.opts.push_back(opt("level", str(r.range(0, 3)))); ch.push_back(e); }
        if (tok && r.chance(20)) { El e = el("antiselector"); e.opts.push_back(opt("lang", lang)); e.opts.push_back(opt("in-tag", "token")); e.opts.push_back(opt("out-tags", "chosen")); ch.push_back(e); }
    }
    ch.push_back(writer(r, backslash, plainw));
    return ch;
}
std::string text(Rng& r, int mx) {
    static const char* W[] = {"Ala", "ma", "kota", "kot", "a", "Prof.", "Nowak", "np.", "12.", "3,5", "the", "Mr.", "Smith", "went", "home", "zażółć", "gęślą", "jaźń", "się", "nie", ".", "!", "?", "...", "-", "(", ")", "http://x.pl", "a@b.pl", "z.B.", "U.S.A."};
    std::string s; int n = r.range(0, mx);
    for (int i = 0; i < n; ++i) {
        if (r.chance(8)) s += rand_text(r, 8); else s += W[r.below(sizeof W / sizeof *W)];
        int k = r.range(0, 9); s += k < 6 ? " " : k == 6 ? "\n" : k == 7 ? "" : k == 8 ? ". " : "  ";
    }
    std::string t; for (size_t i = 0; i < s.size(); ++i) if (s[i]) t += s[i];
    return t;
}
struct Alias { const char* from; const char* to; };
const Alias NAMES[] = {{"read-text", "txt-reader"}, {"read-txt", "txt-reader"}, {"read", "txt-reader"}, {"text-reader", "txt-reader"}, {"tokenize", "tp-tokenizer"}, {"tokenise", "tp-tokenizer"}, {"tokenizer", "tp-tokenizer"}, {"token-generator", "tp-tokenizer"}, {"segment", "srx-segmenter"}, {"segmenter", "srx-segmenter"}, {"segment-generator", "srx-segmenter"}, {"write", "simple-writer"}, {"write-simple", "simple-writer"}, {"write-psi", "psi-writer"}, {"write-lattice", "psi-writer"}, {"guess-lang", "lang-guesser"}, {"guess-language", "lang-guesser"}, {"simplenorm", "simplenorm-normalizer"}, {"write-simple-json", "json-simple-writer"}};

void spellings(Ctx& c) {
    Rng& r = c.r; c.kind = "spelling"; std::string lang; Chain ch = chain(r, lang, true, false, r.chance(70));
    Args a = args_of(r, ch, false); std::string t1 = text(r, 25), t2 = text(r, 25);
    c.note("pipeline:" + show(a)); c.note("texts: " + q(t1) + " " + q(t2));
    Runner p = by_args(a); std::string o1 = run_stream(*p, t1), o2 = run_stream(*p, t2);
    c.nontrivial = o1.size() > 2;
    c.eq(p->run(t1), o1, "rerun", "the same pipeline run again on the same text");
    Args b = args_of(r, ch, true); std::string s = string_of(r, r.chance(50) ? a : b);
    int k = r.range(0, 4);
    if (k == 0) { c.note("as one string: " + q(s, 2000)); Runner x = by_string(s); c.eq(run_stream(*x, t2), o2, "string", "the pipeline given as one string"); c.eq(x->run(t1), o1, "string", "the pipeline given as one string"); }
    else if (k == 1) { c.note("in other order:" + show(b)); c.eq(run_stream(*by_argv(b), t1), o1, "options", "the options in another order or joined to their values"); }
    else if (k == 2) { Runner x = by_argv(a); c.eq(run_stream(*x, t2), o2, "fresh", "a fresh runner on the second text"); c.eq(run_stream(*x, t1), o1, "fresh", "the first text after the second"); }
    else if (k == 3) {
        Chain al = ch;
        for (size_t i = 0; i < al.size(); ++i) { std::vector<std::string> n; for (size_t j = 0; j < sizeof NAMES / sizeof *NAMES; ++j) if (al[i].name == NAMES[j].to) n.push_back(NAMES[j].from); if (!n.empty() && r.chance(70)) al[i].name = r.pick(n); }
        Args x = args_of(r, al, r.chance(50)); c.note("through aliases:" + show(x)); c.eq(run_stream(*by_args(x), t1), o1, "alias", "the pipeline through aliases");
    }
    else {                                                    // aliases standing for several words
        static const Alias W[] = {{"get-tokens", "simple-writer --tags token"}, {"write-tokens", "simple-writer --tags token"}, {"get-segments", "simple-writer --tags segment"}, {"write-segments", "simple-writer --tags segment"}, {"get-selected", "simple-writer --tags selected --sep \" \" --no-alts"}};
        Chain head(ch.begin(), ch.end() - 1); Args h = args_of(r, head, false); h.push_back("!"); Args x = h, y = h; const Alias& w = W[r.below(5)]; c.note(std::string("ending in ") + w.from);
        x.push_back(w.from); Args e = splitPipeline(w.to); y.insert(y.end(), e.begin(), e.end());
        std::string extra = r.chance(50) ? "" : "--alt-sep"; if (!extra.empty()) { std::string v = value(r, true); x.push_back(extra); x.push_back(v); y.push_back(extra); y.push_back(v); }
        std::string want = run_stream(*by_args(y), t1);
        c.eq(run_stream(*by_args(x), t1), want, "alias-words", "the alias " + std::string(w.from)); c.eq(run_stream(*by_string(string_of(r, x)), t1), want, "alias-words", "the alias in one string");
    }
    c.eq(run_stream(*p, t2), o2, "rerun", "the second text once more");
}
void composition(Ctx& c) {
    Rng& r = c.r; c.kind = "composition"; std::string lang; Chain ch = chain(r, lang, false, false, true);
    Args a = args_of(r, ch, false); c.note("pipeline:" + show(a)); Runner p = by_args(a);
    for (int i = 0; i < 3; ++i) { std::string t = text(r, 25); c.note("text: " + q(t)); std::string w = direct(ch, t); if (w.size() > 2) c.nontrivial = true; c.eq(run_stream(*p, t), w, "composition", "output of the pipeline, against its processors run one by one"); }
}
void cut(Ctx& c) {
    Rng& r = c.r; c.kind = "cut"; std::string lang; Chain ch; size_t at; bool lost;
    // hidden symbols are not written unless some edge stands on them (see the probe): what needs them goes on the same side
    do {
        ch = chain(r, lang, false, true, true); at = r.range(1, ch.size() - 1); bool before = false, after = false;
        for (size_t i = 0; i < ch.size(); ++i) { bool t = ch[i].name == "tp-tokenizer"; if (i < at) before = before || t; else after = after || t || ch[i].name == "srx-segmenter"; }
        lost = after && !before;
    } while (ch.size() < 3 || lost); std::string t = text(r, 20);
    Chain x(ch.begin(), ch.begin() + at), y(ch.begin() + at, ch.end()); x.push_back(el("psi-writer")); y.insert(y.begin(), el("psi-reader"));
    Args a = args_of(r, ch, false); c.note("pipeline:" + show(a) + " cut before element " + str(at)); c.note("text: " + q(t));
    std::string whole = run_stream(*by_args(a), t), half = run_stream(*by_args(args_of(r, x, false)), t);
    c.nontrivial = whole.size() > 2;
    std::string got = run_stream(*by_args(args_of(r, y, false)), half);
    { whole.erase(whole.find_last_not_of('\n') + 1); got.erase(got.find_last_not_of('\n') + 1); }     // the line end after the last edge is not written: tests pin it
    c.eq(got, whole, "cut", "the pipeline cut in two at the psi format");
}
void completed(Ctx& c) {                                       // the reader, the language and the writer may be left out
    Rng& r = c.r; c.kind = "completed"; std::string lang = LANGS[r.below(2)], t = text(r, 25); Chain full, given;
    full.push_back(el("txt-reader"));
    El g = el("lang-guesser"); g.opts.push_back(opt("force")); g.opts.push_back(opt("only-langs", lang)); full.push_back(g);
    bool w = true; int k = r.range(0, 3); bool rd = r.chance(50);
    if (rd) given.push_back(full[0]);
    full[0].opts.push_back(opt("line-by-line"));
    if (k != 1) { El e = tokenizer(r, lang); full.push_back(e); given.push_back(e); }
    if (k == 1 || k == 2) { El e = segmenter(r, lang); full.push_back(e); given.push_back(e); }
    if (k == 3) { El e = el("antiselector"); e.opts.push_back(opt("lang", lang)); e.opts.push_back(opt("in-tag", "token")); e.opts.push_back(opt("out-tags", "chosen")); full.push_back(e); given.push_back(e); }
    if (k == 3 || r.chance(50)) { El e = writer(r, false, false); full.push_back(e); given.push_back(e); w = false; }
    else { El e = el(k == 0 ? "simple-writer" : "psi-writer"); full.push_back(e); }
    Args a = args_of(r, given, false); c.note("pipeline:" + show(a) + (w ? " (writer left out)" : "")); c.note("text: " + q(t));
    std::string want = direct(full, t); c.nontrivial = want.size() > 2;
    Runner p = r.chance(50) ? by_args(a) : by_argv(a);
    c.eq(run_stream(*p, t), want, "completed", "output of the pipeline completed on its own, against the full one");
    c.eq(p->run(t), want, "completed", "and again");
}
void lines(Ctx& c) {
    Rng& r = c.r; c.kind = "line by line"; std::string lang; Chain ch = chain(r, lang, false, false, r.chance(50)); Args a = args_of(r, ch, false), b = a;
    static const char* L[] = {"-l", "--line-by-line"}; std::string l = L[r.below(2)];
    // the switch may stand anywhere but between an option and its value; txt-reader has an option of the same long name
    if (r.chance(50) || l == "--line-by-line") b.insert(b.begin(), l); else b.push_back(l);
    std::string t = text(r, 15); int n = r.range(0, 4); for (int i = 0; i < n; ++i) t += "\n" + text(r, 6);
    c.note("pipeline:" + show(b)); c.note("text: " + q(t));
    Runner p = by_args(a), x = by_args(b); std::string want, line; std::istringstream is(t);
    while (std::getline(is, line)) want += run_stream(*p, line);
    c.nontrivial = want.size() > 2;
    c.eq(run_stream(*x, t), want, "lines", "line by line, against the lines on their own");
}
// text in another encoding, converted on the way in
struct Enc { const char* name; const char* letters; const char* bytes; };
const Enc ENCS[] = {{"windows-1250", "ąćęłńóśźżĄĆĘŁŃÓŚŹŻ", "\xb9\xe6\xea\xb3\xf1\xf3\x9c\x9f\xbf\xa5\xc6\xca\xa3\xd1\xd3\x8c\x8f\xaf"}, {"ISO-8859-2", "ąćęłńóśźżĄĆĘŁŃÓŚŹŻ", "\xb1\xe6\xea\xb3\xf1\xf3\xb6\xbc\xbf\xa1\xc6\xca\xa3\xd1\xd3\xa6\xac\xaf"}, {"windows-1251", "абвгдеАБВГД", "\xe0\xe1\xe2\xe3\xe4\xe5\xc0\xc1\xc2\xc3\xc4"}, {"KOI8-R", "абвгдеАБВГД", "\xc1\xc2\xd7\xc7\xc4\xc5\xe1\xe2\xf7\xe7\xe4"}};
void encoded(Ctx& c) {
    Rng& r = c.r; c.kind = "encoding"; const Enc& e = ENCS[r.below(4)]; std::string u, x, L = e.letters; std::vector<size_t> b = bounds(L);
    int n = r.chance(4) ? r.range(50000, 150000) : r.range(0, 60); bool big = n > 1000;
    for (int i = 0; i < n; ++i) { int k = r.range(0, 9); if (k < 5) { size_t j = r.below(b.size() - 1); u += L.substr(b[j], b[j + 1] - b[j]); x += e.bytes[j]; } else { char ch = k < 8 ? (char)('a' + r.below(26)) : k == 8 ? ' ' : (r.chance(30) ? '\n' : ','); u += ch; x += ch; } }
    Args a; a.push_back("txt-reader"); a.push_back(big || r.chance(50) ? "--whole-text" : "--paragraphs"); a.push_back("!"); a.push_back("simple-writer"); a.push_back("--tags"); a.push_back(big || r.chance(50) ? "frag" : "symbol");
    Args y = a; if (r.chance(50)) { y.insert(y.begin(), e.name); y.insert(y.begin(), r.chance(50) ? "-e" : "--from-encoding"); } else y.push_back(std::string("--from-encoding=") + e.name);
    bool l = !big && r.chance(30); if (l) y.push_back("-l");
    c.note("pipeline:" + show(y)); c.note("text: " + q(u)); c.nontrivial = !u.empty();
    std::string want; Runner p = by_args(a);
    if (l) { std::istringstream is(u); std::string line; while (std::getline(is, line)) want += run_stream(*p, line); } else want = run_stream(*p, u);
    Runner z = by_args(y);
    c.eq(run_stream(*z, x), want, "encoding", "text in another encoding, against the same text in UTF-8");
    if (!l) c.eq(z->run(x), want, "encoding", "given as a string");
}
void refuse(Ctx& c, const Args& a, bool as_string, const std::string& s, const std::string& why) {
    std::string out; bool thrown = false;
    try { Runner p = as_string ? by_string(s) : c.r.chance(50) ? by_args(a) : by_argv(a); out = p->run("Ala ma kota."); }
    catch (Violation&) { throw; } catch (std::exception&) { thrown = true; }
    c.count("malformed pipelines tried");
    c.expect(thrown, "accepted:" + why, "a pipeline with " + why + " runs without an error and gives " + q(out, 100));
}
void malformed(Ctx& c) {
    Rng& r = c.r; c.kind = "malformed"; std::string lang; Chain ch; do ch = chain(r, lang, false, false, true); while (ch.size() < 4); Args a; c.nontrivial = true; std::string why;
    size_t e = r.below(ch.size());
    switch (r.range(0, 8)) {
        case 0: ch[e].name = r.chance(50) ? "no-such-processor" : ch[e].name + "x"; why = "an unknown processor"; break;
        case 1: ch[e].opts.push_back(opt("no-such-option", r.chance(50) ? "1" : "x")); why = "an unknown option"; break;
        case 2: { std::vector<std::string> v; v.push_back("lang"); e = 0; for (size_t i = 0; i < ch.size(); ++i) if (ch[i].name == "tp-tokenizer" || ch[i].name == "srx-segmenter") e = i; if (!e) return; ch[e].opts.clear(); ch[e].opts.push_back(opt("lang")); why = "an option without its value"; break; }
        case 3: { El x = writer(r, false, false); ch.insert(ch.begin() + r.range(1, ch.size() - 1), x); why = "a writer in the middle"; break; }
        case 4: { ch.insert(ch.begin() + r.range(1, ch.size() - 1), el("txt-reader")); why = "a reader in the middle"; break; }
        case 5: { El x = ch[0]; ch[0] = ch.back(); ch.back() = x; why = "a reader at the end"; break; }
        case 6: { ch.insert(ch.begin() + r.range(1, ch.size()), el("")); why = "an empty element"; break; }
        case 7: { e = 0; for (size_t i = 0; i < ch.size(); ++i) if (ch[i].name == "tp-tokenizer") e = i; if (!e) return; ch[e].opts.push_back(opt("token-length-hard-limit", r.chance(50) ? "many" : "1x")); if (ch[e].opts.size() > 2) ch[e].opts.erase(ch[e].opts.begin() + 1, ch[e].opts.end() - 1); why = "a number that is none"; break; }
        default: { static const char* S[] = {"tokenize --lang pl ! simple-writer --sep \\x", "tokenize --lang pl ! simple-writer --sep \\", "\\q", "tokenize --lang pl ! \\q"}; std::string s = S[r.below(4)]; c.note("string: " + q(s)); refuse(c, a, true, s, "a broken escape"); return; }
    }
    for (size_t i = 0; i < ch.size(); ++i) { if (i) a.push_back("!"); if (!ch[i].name.empty()) a.push_back(ch[i].name); for (size_t k = 0; k < ch[i].opts.size(); ++k) { a.push_back("--" + ch[i].opts[k].first); a.insert(a.end(), ch[i].opts[k].second.begin(), ch[i].opts[k].second.end()); } }
    c.note("pipeline with " + why + ":" + show(a)); bool st = r.chance(40); refuse(c, a, st, st ? string_of(r, a) : "", why);
}
void xml(Ctx& c) {
    Rng& r = c.r; c.kind = "alias of the bracketing writer"; std::string t = text(r, 12); static const char* N[] = {"write-xml", "get-xml", "xml-writer"}; std::string n = N[r.below(3)];
    Chain ch; ch.push_back(el("txt-reader")); El g = el("lang-guesser"); g.opts.push_back(opt("force")); g.opts.push_back(opt("only-langs", "en")); ch.push_back(g); ch.push_back(tokenizer(r, "en"));
    El w = el("bracketing-writer"); w.opts.push_back(opt("skip-symbol-edges")); w.opts.push_back(opt("opening-bracket", "\n<edge tags=\"%T\" category=\"%c\" attrs=\"%A\">")); w.opts.push_back(opt("closing-bracket", "</edge>\n")); w.opts.push_back(opt("av-separator", ":")); w.opts.push_back(opt("av-pairs-separator", ";"));
    Chain x = ch; x.push_back(el(n)); ch.push_back(w); c.note(n + " on " + q(t)); std::string want = direct(ch, t); c.nontrivial = want.size() > 2;
    Args a = args_of(r, x, false); c.eq(run_stream(*(r.chance(50) ? by_args(a) : by_string(string_of(r, a))), t), want, "xml", "the alias " + n + ", against the brackets it stands for");
}
void reader_option(Ctx& c) {                                 // an option of a processor that has the name of an option of the runner
    c.kind = "probe"; c.nontrivial = true; std::string t = "Ala ma\nkota";
    Chain ch; ch.push_back(el("txt-reader")); ch[0].opts.push_back(opt("line-by-line")); ch.push_back(el("psi-writer"));
    c.eq(run_stream(*by_args(args_of(c.r, ch, false)), t), direct(ch, t), "line-by-line-taken-by-the-runner", "txt-reader --line-by-line ! psi-writer");
}
void hidden_symbols(Ctx& c) {
    c.kind = "probe"; c.nontrivial = true; std::string t = "Ala ma kota";
    Chain x, y, z; x.push_back(el("txt-reader")); x.push_back(el("psi-writer")); z.push_back(el("tp-tokenizer")); z[0].opts.push_back(opt("lang", "pl")); z.push_back(el("simple-writer")); z[1].opts.push_back(opt("tags", "token"));
    y.push_back(el("txt-reader")); y.insert(y.end(), z.begin(), z.end()); z.insert(z.begin(), el("psi-reader"));
    c.eq(run_stream(*by_args(args_of(c.r, z, false)), run_stream(*by_args(args_of(c.r, x, false)), t)), run_stream(*by_args(args_of(c.r, y, false)), t), "hidden-symbols-lost-in-psi", "txt-reader ! tp-tokenizer ! simple-writer, cut after the reader");
}
AddProbe pr1("line-by-line-taken-by-the-runner", reader_option);
AddProbe pr2("hidden-symbols-lost-in-psi", hidden_symbols);
void splitting(Ctx& c) {
    Rng& r = c.r; c.kind = "splitting"; Args a; int n = r.range(1, 8);
    for (int i = 0; i < n; ++i) { std::string v; do v = value(r, true); while (ShallowAliaser::hasAlias(v)); a.push_back(v); }
    std::string s = string_of(r, a); c.note("words:" + show(a)); c.note("string: " + q(s)); c.nontrivial = n > 1;
    c.eq(show(splitPipeline(s)), show(a), "split", "the words of the string");
    Args plain; for (size_t i = 0; i < a.size(); ++i) if (a[i].find('\\') == std::string::npos) plain.push_back(a[i]);
    ShallowAliaser al; c.eq(show(al.replace(plain)), show(plain), "aliaser", "words that are no aliases, after expanding aliases");
}
}
namespace vf {
void setup(const std::string&) { MainFactoriesKeeper::getInstance(); }
void run_case(Ctx& c) {
    switch (c.r.range(0, 19)) {
        case 0: case 1: case 2: case 3: case 4: spellings(c); break;
        case 5: case 6: case 7: composition(c); break;
        case 8: case 9: case 10: cut(c); break;
        case 11: case 12: completed(c); break;
        case 13: case 14: lines(c); break;
        case 15: encoded(c); break;
        case 16: case 17: malformed(c); break;
        case 18: xml(c); break;
        default: splitting(c);
    }
}
}
VF_MAIN

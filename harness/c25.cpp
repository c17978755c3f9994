// C25: what the web server shows is what was asked and computed: JSON answers and pages carry the pipeline,
// the input, the output or the error exactly, as data.
#include "jsonp.hpp"
#include "psi_server.hpp"
#include "psi_request_handler.hpp"
#include "sess.hpp"
#include "pipe_runner.hpp"
#include "site/pipe_site.hpp"
#include "site/json_site.hpp"
#include "site/processor_documentation_site.hpp"
#include <fstream>
using namespace vf;
namespace hs = http::server3;
namespace {
const char* INITIAL_PIPE = "read-text ! write-simple --tags frag";
std::string root; PsiServer* srv; PsiRequestHandler* hnd;
void put(const std::string& p, const std::string& s) { std::ofstream o(p.c_str(), std::ios::binary); o << s; }
std::string run(const std::string& p, const std::string& text, std::string& err) {
    err.clear(); std::ostringstream o;
    try { PipeRunner r(p); std::istringstream i(text); r.run(i, o); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = " "; }
    return o.str();
}
std::string enc(const std::string& s) { std::string o; for (unsigned char c : s) if (isalnum(c)) o += c; else if (c == ' ') o += '+'; else { char b[8]; snprintf(b, sizeof b, "%%%02X", c); o += b; } return o; }
std::string part(const std::string& d, const std::string& n) { size_t a = d.find("[[" + n + "]]"), b = d.rfind("[[/" + n + "]]"); if (a == std::string::npos || b == std::string::npos) return "<none>"; a += n.size() + 4; return d.substr(a, b - a); }
bool unhtml(const std::string& s, std::string& o) {            // text content of an element: no markup in it
    static const char* ent[][2] = {{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&#39;", "'"}, {"&#039;", "'"}, {"&#34;", "\""}};
    o.clear();
    for (size_t i = 0; i < s.size(); ) {
        if (s[i] == '<' || s[i] == '>') return false;
        if (s[i] == '&') { bool ok = false; for (auto& e : ent) if (s.compare(i, strlen(e[0]), e[0]) == 0) { o += e[1]; i += strlen(e[0]); ok = true; break; } if (!ok) return false; continue; }
        o += s[i++];
    }
    return true;
}
bool unjs(const std::string& s, std::map<std::string, std::string>& o) {      // psisOptions = {'a' : 'b', ...};
    size_t i = s.find('{'); if (i == std::string::npos) return false; ++i; o.clear();
    auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) ++i; };
    auto hex = [](const std::string& h) { return (int)strtol(h.c_str(), 0, 16); };
    auto lit = [&](std::string& v) {
        ws(); if (i >= s.size() || (s[i] != '\'' && s[i] != '"')) return false; char qt = s[i++]; v.clear();
        for (;;) {
            if (i >= s.size() || s[i] == '\n' || s[i] == '\r') return false;
            if (s[i] == qt) { ++i; return true; }
            if (s[i] == '<' && (s.compare(i, 2, "</") == 0 || s.compare(i, 4, "<!--") == 0)) return false;
            if (s[i] != '\\') { v += s[i++]; continue; }
            char e = s[i + 1]; i += 2;
            switch (e) { case 'n': v += '\n'; break; case 'r': v += '\r'; break; case 't': v += '\t'; break; case 'b': v += '\b'; break; case 'f': v += '\f'; break; case 'v': v += '\v'; break;
                case 'x': v += vf::utf8(hex(s.substr(i, 2))); i += 2; break; case 'u': v += vf::utf8(hex(s.substr(i, 4))); i += 4; break; default: v += e; }
        }
    };
    for (;;) {
        std::string k, v; ws(); if (i < s.size() && s[i] == '}') break;
        if (!lit(k)) return false; ws(); if (i >= s.size() || s[i] != ':') return false; ++i; if (!lit(v)) return false; o[k] = v; ws();
        if (i < s.size() && s[i] == ',') { ++i; continue; } if (i < s.size() && s[i] == '}') break; return false;
    }
    ++i; ws(); return i < s.size() && s[i] == ';' && s.find_first_not_of(" \n", i + 1) == std::string::npos;
}
std::string text(Rng& r, bool nul) {
    static const char* bits[] = {"<", ">", "&", "\"", "'", "\\", "/", "</textarea>", "</pre>", "</script>", "<!--#psis pipe_site_input_text -->", "-->", "<b>", "&amp;", "&lt;", "&#39;", "\\n", "\\u0041", "\n", "\t", "\r\n", "\f", "\b", "\x01", "\x1f", "\x7f", "{}", "[[/IN]]", "null", "%41", "+", "\xE2\x80\xA8", "\xC5\xBC"};
    std::string s; int n = r.size(12);
    for (int i = 0; i < n; ++i) switch (r.range(0, 5)) { case 0: case 1: s += bits[r.below(sizeof bits / sizeof *bits)]; break; case 2: s += ' '; break; case 3: s += rand_text(r, 4); break; default: s += rand_word(r, 5); }
    if (nul && r.chance(10)) s.insert(r.below(s.size() + 1) & ~0u, 1, '\0');
    std::vector<uint32_t> d; if (!decode(s, d)) return "x";
    return s;
}
std::string bad(Rng& r) {
    switch (r.range(0, 5)) {
        case 0: return "no-such-processor";
        case 1: return "read-text --no-such-option";
        case 2: return "read-text ! simple-writer --sep";
        case 3: { std::string w; for (int i = r.range(1, 4); i > 0; --i) { static const char* x[] = {"'", "\"q\"", "\\", "<b>", "&", "/", "</script>", "\xC5\xBC", "z"}; w += x[r.below(9)]; } return w + " ! write-simple"; }
        case 4: return "read-text ! simple-writer --sep , --tags";
        default: return "";
    }
}
struct Req { hs::request q; hs::reply rep; };
std::string cookie;
hs::reply go(const std::string& method, const std::string& uri, const std::string& body) {
    hs::request q; q.method = method; q.uri = uri; q.http_version_major = 1; q.http_version_minor = 0; q.post_data = body;
    hs::header h; h.name = "Cookie"; h.value = "PSISESSIONID=" + cookie; if (!cookie.empty()) q.headers.push_back(h);
    if (method == "POST") { h.name = "Content-Type"; h.value = "application/x-www-form-urlencoded"; q.headers.push_back(h); }
    hs::reply rep; hnd->handle_request(q, rep);
    for (auto& x : rep.headers) if (x.name == "Set-Cookie") cookie = x.value.substr(13);
    return rep;
}
void json(Ctx& c) {
    Rng& r = c.r;
    static const char* good[] = {"read-text ! simple-writer --tags frag", "read-text ! simple-writer --tags symbol --sep /", "read-text ! psi-writer", "read-text ! json-simple-writer --tags symbol", "read-text ! json-simple-writer --tags frag", "txt-reader --whole-text ! write-simple --tags frag", "read-text --line-by-line ! write-bracketing --tag-separator / --tags symbol", "read-text ! write-simple --tags symbol --sep \"\\\\\""};
    bool isbad = r.chance(20); std::string p = isbad ? bad(r) : good[r.below(8)], in = text(r, true), err, out = run(p, in, err);
    c.note("JSON " + q(p) + " " + q(in));
    std::string v = "pipe=" + enc(p) + "&input=" + enc(in);
    hs::reply rep = r.chance(50) ? go("GET", "/json.psis?" + v, "") : go("POST", "/json.psis", v);
    if (p.empty()) c.count("empty-pipes");
    J j; try { JP jp(rep.content); j = jp.all(); } catch (JErr& e) {
        std::vector<uint32_t> d; if (!decode(out + err, d)) { c.count("output-not-utf8"); return; }
        c.fail("invalid-json", "the answer to " + q(p) + " on " + q(in) + " is no JSON (" + e.m + "): " + q(rep.content, 1500));
    }
    std::map<std::string, J> m; for (auto& x : j.o) m[x.first] = x.second;
    c.expect(j.t == 'o' && m.size() == 4 && j.o.size() == 4, "json-members", "the answer has the wrong members: " + q(rep.content, 800));
    c.expect(m["pipe"].t == 's' && m["pipe"].s == p, "json-pipe", "pipe " + q(m["pipe"].s) + ", sent " + q(p));
    c.expect(m["input"].t == 's' && m["input"].s == in, "json-input", "input " + q(m["input"].s) + ", sent " + q(in));
    if (err.empty()) {
        c.expect(m["error"].t == 'n', "json-error", "an error is reported for a pipeline that works: " + show(m["error"]));
        if (p.find("json-simple-writer") != std::string::npos) { J w; { JP jp(out); w = jp.all(); } c.expect(show(m["output"]) == show(w), "json-output", "output " + show(m["output"]) + ", computed " + q(out)); }
        else c.expect(m["output"].t == 's' && m["output"].s == out, "json-output", "output " + show(m["output"]) + ", computed " + q(out));
        c.count("outputs"); if (out.size() > 3) c.nontrivial = true;
    } else {
        c.expect(m["output"].t == 'n', "json-output", "an output is given for a pipeline that fails: " + show(m["output"]));
        c.expect(m["error"].t == 's' && m["error"].s.find(err) != std::string::npos, "json-error", "error " + show(m["error"]) + ", was " + q(err));
        c.count("errors");
    }
}
void page(Ctx& c) {
    Rng& r = c.r;
    static const char* good[] = {"read-text ! simple-writer --tags frag", "read-text ! simple-writer --tags symbol --sep /", "read-text ! psi-writer", "read-text | write-simple --tags frag", "txt-reader --whole-text ! write-simple --tags frag", "read-text --line-by-line ! write-bracketing --tag-separator / --tags symbol"};
    bool isbad = r.chance(25); std::string p = isbad ? bad(r) : good[r.below(6)], in = text(r, false), err;
    if (in.empty()) in = "x"; if (p.empty()) p = "nothing!";
    std::string rp = p; for (size_t i; (i = rp.find(" | ")) != std::string::npos; ) rp.replace(i, 3, " ! ");
    std::string out = run(rp, in, err), ot = text(r, false);
    c.note("page " + q(p) + " " + q(in) + " " + q(ot));
    if (out.find('\0') != std::string::npos) { c.count("output-with-nul"); return; }
    hs::reply rep = go("POST", "/pipe.psis", "pipe-text=" + enc(p) + "&input-text=" + enc(in) + "&output-type=" + enc(ot));
    if (r.chance(30)) rep = go("GET", "/psitoolkit.html", "");
    std::string got, raw = part(rep.content, "PIPE");
    c.expect(unhtml(raw, got) && got == p && raw.find('"') == std::string::npos, "page-pipe", "pipe shown as " + q(raw) + ", sent " + q(p));
    raw = part(rep.content, "IN"); c.expect(unhtml(raw, got), "page-input-markup", "the input " + q(in) + " becomes markup of the page: " + q(raw)); c.expect(got == in, "page-input", "input shown as " + q(raw) + ", sent " + q(in));
    raw = part(rep.content, "OPT"); std::map<std::string, std::string> o;
    c.expect(unjs(raw, o), "page-options", "the options are no script: " + q(raw, 1000));
    c.expect(o["initialOutputType"] == ot, "page-output-type", "output type " + q(o["initialOutputType"]) + ", sent " + q(ot));
    raw = part(rep.content, "OUT");
    if (err.empty()) {
        c.expect(o["errorOccured"].empty(), "page-error", "an error is shown for a pipeline that works: " + q(o["errorOccured"]));
        std::string f = o["fileToDownload"]; c.expect(f.compare(0, 9, "/storage/") == 0, "page-file", "no file to download: " + q(f));
        hs::reply file = go("GET", f, "");
        if (out.find("<!--#psis") == std::string::npos) c.expect(file.status == hs::reply::ok && file.content == out, "page-file-content", "the file to download holds " + q(file.content) + ", computed " + q(out));
        if (raw.compare(0, 5, "<pre>") == 0 && raw.size() >= 11 && raw.find("[output format not") == std::string::npos) {
            raw = raw.substr(5, raw.size() - 11); c.expect(unhtml(raw, got), "page-output-markup", "the output " + q(out) + " becomes markup of the page: " + q(raw));
            c.expect(got == out, "page-output", "output shown as " + q(raw) + ", computed " + q(out)); c.count("outputs"); c.nontrivial = true;
        } else c.count("output-not-text");
        unlink((root + f).c_str());
    } else {
        c.expect(o["errorOccured"].find(err) != std::string::npos, "page-error", "error " + q(o["errorOccured"]) + ", was " + q(err));
        c.expect(o["fileToDownload"].empty(), "page-file", "a file of a pipeline that failed: " + q(o["fileToDownload"]));
        if (raw.compare(0, 5, "<pre>") == 0) { c.expect(unhtml(raw.substr(5, raw.size() - 11), got) && got.find(err) != std::string::npos, "page-output", "the error " + q(err) + " is shown as " + q(raw)); }
        c.count("errors");
    }
}
void doc(Ctx& c) {
    Rng& r = c.r; std::string n = text(r, false); if (n.empty()) n = "<i>"; c.note("documentation of " + q(n));
    hs::reply rep = go("GET", "/help/processor.psis?name=" + enc(n), ""); std::string raw = part(rep.content, "D"), got; size_t a = raw.find("<code>"), b = raw.rfind("</code>");
    c.expect(a != std::string::npos && b != std::string::npos && unhtml(raw.substr(a + 6, b - a - 6), got) && got == n, "doc-name", "the name " + q(n) + " becomes " + q(raw));
    c.nontrivial = true;
}
}
void vf::run_case(Ctx& c) {
    if (c.r.chance(2)) { cookie.clear(); vf::forget_sessions(); }
    int k = c.r.range(0, 19);
    if (k == 0) { c.kind = "documentation"; doc(c); } else if (k < 11) { c.kind = "json"; json(c); } else { c.kind = "page"; page(c); }
}
namespace vf { void setup(const std::string&) {
    root = std::string(getenv("VF_TMP")) + "/root";
    mkdir(root.c_str(), 0755); mkdir((root + "/help").c_str(), 0755); mkdir((root + "/storage").c_str(), 0755);
    put(root + "/psitoolkit.html", "[[OPT]]<!--#psis pipe_site_options -->[[/OPT]]\n[[PIPE]]<!--#psis pipe_site_pipe_text -->[[/PIPE]]\n[[OUT]]<!--#psis pipe_site_output_text -->[[/OUT]]\n[[IN]]<!--#psis pipe_site_input_text -->[[/IN]]");
    put(root + "/json.html", "<!--#psis json_site_output -->");
    put(root + "/help/processor-documentation.html", "[[N]]<!--#psis processor_documentation_site_processor_name -->[[/N]][[D]]<!--#psis processor_documentation_site_processor_documentation -->[[/D]]");
    srv = new PsiServer("127.0.0.1", "0", "1", root); new PipeSite(*srv, INITIAL_PIPE, "initial"); new JsonSite(*srv); new ProcessorDocumentationSite(*srv);
    hnd = new PsiRequestHandler(root, srv);
} }
VF_MAIN

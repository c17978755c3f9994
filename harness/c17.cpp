// C17: HTTP requests, forms and uploads parse the same however their bytes arrive.
#include "h.hpp"
#include "request_parser.hpp"
#include "request.hpp"
#include "reply.hpp"
#include "psi_server.hpp"
#include "psi_request_handler.hpp"
#include "sess.hpp"
#include "mpfd-parser/Parser.h"
#include <fstream>
#include <memory>
using namespace vf;
namespace hs = http::server3;

namespace {
template <class A, class B, class F> void EQ(Ctx& c, const char* key, const A& got, const B& want, F why) {
    c.count("monitor_checks");
    if (!(got == want)) c.fail(key, why() + ": got " + q(str(got), 5000) + ", want " + q(str(want), 5000));
}
struct Parsed {
    std::string verdict;      // ok, bad, more
    size_t used;
    std::string method, uri, body;
    int major, minor;
    std::vector<std::pair<std::string, std::string> > headers;
    Parsed() : used(0), major(-1), minor(-1) {}
    std::string s() const {
        std::string o = verdict + " used=" + str(used) + " " + q(method) + " " + q(uri) + " " + str(major) + "." + str(minor);
        for (size_t i = 0; i < headers.size(); ++i) o += " " + q(headers[i].first) + ":" + q(headers[i].second);
        return o + " body=" + q(body, 4000);
    }
};
Parsed real_parse(const std::string& in, const std::vector<size_t>& cuts) {      // cuts: ascending offsets
    hs::request req; req.http_version_major = req.http_version_minor = -1;
    hs::request_parser p;
    Parsed r; r.verdict = "more";
    size_t at = 0;
    for (size_t k = 0; k <= cuts.size(); ++k) {
        size_t to = k < cuts.size() ? cuts[k] : in.size();
        size_t n = to - at;
        std::unique_ptr<char[]> buf(new char[n]);        // exactly as long as the read: over-reads are seen
        std::copy(in.begin() + at, in.begin() + to, buf.get());
        boost::tribool v; char* end;
        boost::tie(v, end) = p.parse(req, buf.get(), buf.get() + n);
        r.used = at + (end - buf.get());
        if (v) { r.verdict = "ok"; break; }
        if (!v) { r.verdict = "bad"; break; }
        if (end != buf.get() + n) { r.verdict = "stopped-early"; break; }
        at = to;
    }
    r.method = req.method; r.uri = req.uri; r.body = req.post_data; r.major = req.http_version_major; r.minor = req.http_version_minor;
    for (size_t i = 0; i < req.headers.size(); ++i) r.headers.push_back(std::make_pair(req.headers[i].name, req.headers[i].value));
    return r;
}
bool token(unsigned char c) { return c > 32 && c < 127 && !strchr("()<>@,;:\\\"/[]?={}", c); }
bool ctl(unsigned char c) { return c < 32 || c == 127; }
bool ieq(const std::string& a, const char* b) { return strcasecmp(a.c_str(), b) == 0 && a.size() == strlen(b); }

// what the bytes mean; verdict "any" where this grammar leaves the answer open
Parsed model(const std::string& s, bool& fields_open) {
    Parsed r; fields_open = false;
    size_t i = 0; r.verdict = "more"; r.used = s.size();
    while (i < s.size() && token(s[i])) r.method += s[i++];
    if (i == s.size()) return r;
    if (s[i] != ' ' || !i) { r.verdict = "bad"; return r; }
    ++i;
    while (i < s.size() && s[i] != ' ' && !ctl(s[i])) r.uri += s[i++];
    if (i == s.size()) return r;
    if (s[i] != ' ') { r.verdict = "bad"; return r; }
    if (r.uri.empty()) { r.verdict = "any"; return r; }
    ++i;
    for (const char* h = "HTTP/"; *h; ++h, ++i) {
        if (i == s.size()) return r;
        if (s[i] != *h) { r.verdict = "bad"; return r; }
    }
    for (int k = 0; k < 2; ++k) {
        size_t b = i;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
        if (i - b > 3) { r.verdict = "any"; return r; }
        if (i == s.size()) return r;
        if (i == b || s[i] != (k ? '\r' : '.')) { r.verdict = "bad"; return r; }
        (k ? r.minor : r.major) = atoi(s.substr(b, i - b).c_str());
        ++i;
    }
    if (i == s.size()) return r;
    if (s[i] != '\n') { r.verdict = "bad"; return r; }
    ++i;
    while (true) {
        if (i == s.size()) return r;
        if (s[i] == '\r') {
            if (++i == s.size()) return r;
            if (s[i] != '\n') { r.verdict = "bad"; return r; }
            ++i; break;
        }
        if (s[i] == ' ' || s[i] == '\t') { r.verdict = r.headers.empty() ? "bad" : "any"; return r; }     // folded header
        std::string n, v;
        while (i < s.size() && token(s[i])) n += s[i++];
        if (n.empty()) { r.verdict = "bad"; return r; }
        r.headers.push_back(std::make_pair(n, v));
        if (i == s.size()) return r;
        if (s[i] != ':') { r.verdict = "bad"; return r; }
        if (++i == s.size()) return r;
        if (s[i] != ' ') { r.verdict = "any"; return r; }
        ++i;
        while (i < s.size() && !ctl(s[i])) v += s[i++];
        r.headers.back().second = v;
        if (i == s.size()) return r;
        if (s[i] == '\t') { r.verdict = "any"; return r; }
        if (s[i] != '\r') { r.verdict = "bad"; return r; }
        if (++i == s.size()) return r;
        if (s[i] != '\n') { r.verdict = "bad"; return r; }
        ++i;
    }
    if (r.method != "POST") { r.verdict = "ok"; r.used = i; return r; }
    int seen = 0; std::string len;
    for (size_t k = 0; k < r.headers.size(); ++k)
        if (ieq(r.headers[k].first, "Content-Length")) { ++seen; len = r.headers[k].second; }
    if (seen > 1 || (seen && (len.empty() || len.size() > 9))) { r.verdict = "any"; return r; }
    for (size_t k = 0; k < len.size(); ++k)
        if (len[k] < '0' || len[k] > '9') { r.verdict = (len[0] == ' ' || len[0] == '+' || len[len.size() - 1] == ' ') ? "any" : "bad"; return r; }
    size_t L = seen ? atoi(len.c_str()) : 0;
    r.body = s.substr(i, L);
    if (s.size() - i >= L) { r.verdict = "ok"; r.used = i + L; }
    return r;
}

std::string rtoken(Rng& r, int mx) {
    std::string s; int n = r.range(1, mx);
    for (int i = 0; i < n; ++i) { char c; do c = r.chance(80) ? (char)('A' + r.below(58)) : (char)r.range(33, 126); while (!token(c)); s += c; }
    return s;
}
std::string ruri(Rng& r) {
    std::string s = r.chance(95) ? "/" : "";
    int n = r.size(40);
    for (int i = 0; i < n; ++i) { char c; do c = r.chance(70) ? (char)('a' + r.below(26)) : (char)r.below(256); while (ctl(c) || c == ' '); s += c; }
    return s.empty() ? "*" : s;
}
std::string hval(Rng& r) {
    std::string s; int n = r.range(1, 30);
    for (int i = 0; i < n; ++i) { char c; do c = r.chance(80) ? (char)r.range(32, 126) : (char)r.below(256); while (ctl(c)); s += c; }
    return s;
}
std::string rcase(Rng& r, std::string s) {
    int k = r.range(0, 9);
    if (k == 0) for (size_t i = 0; i < s.size(); ++i) s[i] = tolower(s[i]);
    else if (k == 1) for (size_t i = 0; i < s.size(); ++i) s[i] = toupper(s[i]);
    return s;
}
std::string rbody(Rng& r, int mx) {
    std::string s; int n = r.size(mx);
    for (int i = 0; i < n; ++i) {
        int k = r.range(0, 5);
        if (k == 0) s += "\r\n"; else if (k == 1) s += (char)r.below(256); else if (k == 2) s += "&=%+\n\r-\0"[r.below(8)]; else s += (char)r.range(32, 126);
    }
    return s;
}
std::string build(Rng& r, const std::string& method, const std::string& uri, const std::vector<std::pair<std::string, std::string> >& hdr, const std::string& body, bool addlen) {
    std::vector<std::pair<std::string, std::string> > h = hdr;
    if (addlen) h.insert(h.begin() + r.below(h.size() + 1), std::make_pair(rcase(r, "Content-Length"), str(body.size())));
    std::string s = method + " " + uri + " HTTP/" + str(r.range(0, 2)) + "." + str(r.range(0, 12)) + "\r\n";
    for (size_t i = 0; i < h.size(); ++i) s += h[i].first + ": " + h[i].second + "\r\n";
    return s + "\r\n" + body;
}
std::vector<size_t> rcuts(Rng& r, size_t n) {
    std::vector<size_t> c;
    int k = r.range(0, 3);
    if (k == 0) for (size_t i = 1; i < n; ++i) c.push_back(i);                      // one byte at a time
    else if (k == 1) { if (n > 1) c.push_back(1 + r.below(n - 1)); }
    else if (n) { int m = r.range(2, 12); for (int i = 0; i < m; ++i) c.push_back(r.below(n + 1)); std::sort(c.begin(), c.end()); }
    return c;
}
void against(Ctx& c, const std::string& s) {
    Rng& r = c.r;
    bool open; Parsed m = model(s, open);
    Parsed whole = real_parse(s, std::vector<size_t>());
    c.note(c.kind + " " + q(s, 300));
    c.count(("model-" + m.verdict).c_str()); c.count(("parsed-" + whole.verdict).c_str());
    if (m.verdict != "any") {
        EQ(c, "verdict", whole.verdict, m.verdict, [&]{ return "request " + q(s, 3000); });
        if (m.verdict == "ok" && whole.verdict == "ok") EQ(c, "parsed-request", whole.s(), m.s(), [&]{ return "request " + q(s, 3000); });
    }
    for (int k = 0; k < 4; ++k) {
        std::vector<size_t> cuts = rcuts(r, s.size());
        Parsed p = real_parse(s, cuts);
        EQ(c, "split-independence", p.s(), whole.s(), [&]{ std::string w; for (size_t i = 0; i < cuts.size() && i < 40; ++i) w += " " + str(cuts[i]); return "request " + q(s, 3000) + " cut at" + w; });
        c.count("splits");
    }
}
void requests(Ctx& c) {
    Rng& r = c.r;
    std::vector<std::pair<std::string, std::string> > h;
    int n = r.size(6);
    for (int i = 0; i < n; ++i) h.push_back(std::make_pair(rtoken(r, 12), hval(r)));
    std::string body; bool post = r.chance(65);
    if (post) {
        body = rbody(r, c.thorough ? 600 : 120);
        int k = r.range(0, 3);
        if (k == 0) h.push_back(std::make_pair(rcase(r, "Content-Type"), "multipart/form-data; boundary=" + rtoken(r, 10)));
        else if (k == 1) h.push_back(std::make_pair(rcase(r, "Content-Type"), "application/x-www-form-urlencoded"));
        else if (k == 2) h.push_back(std::make_pair("Content-Type", "text/plain"));
    }
    std::string s = build(r, post ? "POST" : r.chance(60) ? "GET" : rtoken(r, 8), ruri(r), h, post ? body : "", post && r.chance(95));
    int k = r.range(0, 9);
    if (k < 4) { if (r.chance(30)) s += rbody(r, 30); c.nontrivial = true; c.kind = "request"; }
    else if (k < 6) { s = s.substr(0, r.below(s.size() + 1)); c.kind = "truncated-request"; c.nontrivial = true; }
    else {
        int e = r.range(1, 3);
        for (int i = 0; i < e && !s.empty(); ++i) {
            size_t at = r.below(s.size());
            switch (r.range(0, 5)) {
                case 0: s[at] = (char)r.below(256); break;
                case 1: s.erase(at, r.range(1, 3)); break;
                case 2: s.insert(at, 1, "\r\n \t:\0\x7f/."[r.below(9)]); break;
                case 3: s.insert(at, std::string(r.range(1, 15), "0123456789:- "[r.below(13)])); break;
                case 4: { size_t p = s.find("ength: "); if (p != std::string::npos) { static const char* v[] = {"-1", "-5", "99999999999", "2147483647", "2147483648", "18446744073709551615", "abc", "", "0x10", "1e3", " 3", "+3", "3 "}; size_t e2 = s.find('\r', p); s.replace(p + 7, e2 - p - 7, v[r.below(13)]); } break; }
                default: { size_t p = s.find("HTTP/"); if (p != std::string::npos) s.insert(p + 5, std::string(r.range(1, 25), '1' + r.below(9))); }
            }
        }
        c.kind = "mutated-request"; c.nontrivial = true;
    }
    against(c, s);
}

// ---- multipart bodies -------------------------------------------------------------------
struct Fld { std::string name, value, filename, ctype; bool file; };
std::string rboundary(Rng& r) {
    static const std::string al = "0123456789ABCXYZabcxyz'()+_,-./:=?";
    std::string s; int n = r.range(1, r.chance(70) ? 30 : 70);
    for (int i = 0; i < n; ++i) s += al[r.below(al.size())];
    return s;
}
std::string rname(Rng& r) {
    std::string s; int n = r.range(1, 12);
    for (int i = 0; i < n; ++i) {
        if (r.chance(80)) s += (char)('a' + r.below(26));
        else { uint32_t ch; do ch = rand_char(r); while (ch == '"' || ch == '\n' || ch == '\r' || ch == '\t' || ch < 32); s += utf8(ch); }
    }
    return s;
}
std::string rcontent(Rng& r, const std::string& bd, int mx) {
    std::string s; int n = r.size(mx);
    for (int i = 0; i < n; ++i) switch (r.range(0, 8)) {
        case 0: s += "\r\n"; break;
        case 1: s += "\r\n--" + bd.substr(0, r.below(bd.size())); break;
        case 2: s += "-"; break;
        case 3: s += "\r\n\r\n"; break;
        case 4: s += (char)r.below(256); break;
        case 5: s += utf8(rand_char(r)); break;
        default: s += (char)r.range(32, 126);
    }
    return s;
}
bool clean(const std::string& content, const std::string& bd) { return (content + "\r\n--" + bd).find("--" + bd) == content.size() + 2; }
std::string multipart(Rng& r, const std::string& bd, std::vector<Fld>& fs, int mx) {
    std::string s;
    if (r.chance(10)) { std::string p = rcontent(r, bd, 10) + "\r\n"; if (clean(p, bd)) s += p; }
    int n = r.range(1, 5); std::set<std::string> used;
    for (int i = 0; i < n; ++i) {
        Fld f; f.file = r.chance(40);
        do f.name = rname(r); while (used.count(f.name) || used.count(f.name + "-filename") || (f.name.size() > 9 && f.name.substr(f.name.size() - 9) == "-filename"));
        used.insert(f.name);
        do f.value = rcontent(r, bd, mx); while (!clean(f.value, bd));
        s += "--" + bd + "\r\n";
        std::string cd = "Content-Disposition: form-data; name=\"" + f.name + "\"";
        if (f.file) { if (r.chance(90)) f.filename = rname(r); std::string fn = "filename=\"" + f.filename + "\"";
            if (r.chance(15)) cd = "Content-Disposition: form-data; " + fn + "; name=\"" + f.name + "\""; else cd += "; " + fn; }
        std::string ct;
        if (f.file ? r.chance(70) : r.chance(15)) { f.ctype = r.chance(50) ? "text/plain" : "application/octet-stream"; ct = "Content-Type: " + f.ctype; }
        if (ct.empty()) s += cd; else if (r.chance(70)) s += cd + "\r\n" + ct; else s += ct + "\r\n" + cd;
        s += "\r\n\r\n" + f.value + "\r\n";
        fs.push_back(f);
    }
    s += "--" + bd + "--\r\n";
    return s;
}
std::string desc(const std::vector<Fld>& fs) {
    std::string o;
    for (size_t i = 0; i < fs.size(); ++i) o += "[" + q(fs[i].name) + (fs[i].file ? " file " + q(fs[i].filename) + " " + fs[i].ctype : "") + " = " + q(fs[i].value, 2000) + "]";
    return o;
}
void feed(Ctx& c, MPFD::Parser& p, const std::string& body, const std::vector<size_t>& cuts) {
    size_t at = 0;
    for (size_t k = 0; k <= cuts.size(); ++k) {
        size_t to = k < cuts.size() ? cuts[k] : body.size();
        if (to == at && k < cuts.size()) continue;
        std::unique_ptr<char[]> buf(new char[to - at]);
        std::copy(body.begin() + at, body.begin() + to, buf.get());
        p.AcceptSomeData(buf.get(), to - at);
        at = to;
    }
}
void mpfd(Ctx& c) {
    Rng& r = c.r; c.kind = "multipart";
    std::string bd = rboundary(r); std::vector<Fld> fs;
    std::string body = multipart(r, bd, fs, c.thorough ? 200 : 40);
    c.note(q(body, 300)); c.nontrivial = true;
    if (r.chance(25)) {                                                          // damaged: any outcome but a crash
        std::string b2 = body; int e = r.range(1, 4);
        for (int i = 0; i < e && !b2.empty(); ++i) { size_t at = r.below(b2.size()); if (r.chance(40)) b2.erase(at, r.range(1, 20)); else if (r.chance(50)) b2[at] = (char)r.below(256); else b2 = b2.substr(0, at); }
        try { MPFD::Parser p; p.SetUploadedFilesStorage(MPFD::Parser::StoreUploadedFilesInMemory); p.SetContentType("multipart/form-data; boundary=" + bd); feed(c, p, b2, rcuts(r, b2.size())); }
        catch (MPFD::Exception&) { c.count("mpfd-exceptions"); }
        c.count("damaged-multipart");
        return;
    }
    for (int k = 0; k < 3; ++k) {
        bool mem = r.chance(80);
        std::vector<size_t> cuts; if (k) cuts = rcuts(r, body.size());
        try {
            MPFD::Parser p; p.SetTempDirForFileUpload(getenv("VF_TMP"));
            p.SetUploadedFilesStorage(mem ? MPFD::Parser::StoreUploadedFilesInMemory : MPFD::Parser::StoreUploadedFilesInFilesystem);
            p.SetContentType("multipart/form-data; boundary=" + bd);
            feed(c, p, body, cuts);
            std::map<std::string, MPFD::Field*> m = p.GetFieldsMap();
            std::vector<Fld> got;
            for (size_t i = 0; i < fs.size(); ++i) {
                Fld f = fs[i];
                if (!m.count(f.name)) { c.fail("multipart-field-lost", q(f.name) + " in " + q(body, 3000)); continue; }
                MPFD::Field* x = m[f.name];
                f.file = x->GetType() == MPFD::Field::FileType;
                if (!f.file) { f.value = x->GetTextTypeContent(); }
                else {
                    f.filename = x->GetFileName();
                    if (!fs[i].ctype.empty()) f.ctype = x->GetFileMimeType();
                    if (mem) f.value = std::string(x->GetFileContent() ? x->GetFileContent() : "", x->GetFileContentSize());
                    else if (!fs[i].value.empty()) { std::ifstream in(x->GetTempFileName().c_str(), std::ios::binary); f.value = std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); }
                }
                got.push_back(f);
            }
            auto why = [&]{ std::string w; for (size_t i = 0; i < cuts.size() && i < 40; ++i) w += " " + str(cuts[i]); return "boundary " + q(bd) + " body " + q(body, 3000) + " cut at" + w; };
            EQ(c, "multipart-fields", desc(got), desc(fs), why);
            EQ(c, "multipart-field-count", m.size(), fs.size(), why);
            c.count("multipart-parses"); c.count("fields", fs.size());
        } catch (MPFD::Exception& e) { c.fail("multipart-refused", e.GetError() + " for " + q(body, 3000)); }
    }
}

// ---- whole requests through the handler --------------------------------------------------
PsiServer* srv; PsiRequestHandler* handler; std::map<std::string, std::string> seen; int calls; std::string docroot;
char* action(PsiServer* s) { ++calls; seen = s->session()->data; static char u[] = "/done.html"; return u; }
void start() {
    if (srv) return;
    docroot = std::string(getenv("VF_TMP")) + "/root";
    mkdir(docroot.c_str(), 0700);
    std::ofstream((docroot + "/done.html").c_str()) << "done <!--#psis what --> end";
    srv = new PsiServer("127.0.0.1", "0", "1", docroot);
    handler = new PsiRequestHandler(docroot, srv);
    srv->registerActionCode("act", action);
}
std::string enc(Rng& r, const std::string& s, bool name) {
    std::string o; char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char ch = s[i];
        if (ch == ' ' && r.chance(60)) o += '+';
        else if (isalnum(ch) || strchr("-_.~", ch) ? !ch || r.chance(4) : true) { snprintf(b, sizeof b, r.chance(70) ? "%%%02X" : "%%%02x", ch); o += b; }
        else o += ch;
    }
    return o;
}
void forms(Ctx& c) {
    Rng& r = c.r; start();
    if (c.index % 64 == 0) { vf::forget_sessions(); }
    std::vector<Fld> fs; std::string body, uri = "/act.psis"; std::vector<std::pair<std::string, std::string> > h;
    std::string method = "POST"; bool damaged = r.chance(20);
    if (r.chance(50)) {
        c.kind = "form";
        int n = r.range(1, 6); std::set<std::string> used; std::string s;
        for (int i = 0; i < n; ++i) {
            Fld f; f.file = false;
            do f.name = r.chance(70) ? rtoken(r, 8) : rand_text(r, 8); while (f.name.empty() || used.count(f.name));
            used.insert(f.name); f.value = r.chance(50) ? rand_text(r, 30) : rand_bytes(r, 30);
            if (r.chance(10)) f.value = std::string(r.range(1, 5), "+% &=\0"[r.below(6)]);
            fs.push_back(f);
            s += (i ? "&" : "") + enc(r, f.name, true);
            if (!f.value.empty() || r.chance(70)) s += "=" + enc(r, f.value, false);
        }
        if (damaged) { int e = r.range(1, 4); for (int i = 0; i < e; ++i) { if (r.chance(50)) s.insert(r.below(s.size() + 1), 1, "%&=+&%"[r.below(6)]); else s = s.substr(0, r.below(s.size() + 1)); } }
        if (r.chance(40)) { method = "GET"; uri += "?" + s; } else { body = s; h.push_back(std::make_pair("Content-Type", "application/x-www-form-urlencoded")); }
    } else {
        c.kind = "upload";
        std::string bd = rboundary(r);
        body = multipart(r, bd, fs, c.thorough ? 120 : 30);
        if (damaged) { size_t at = r.below(body.size()); if (r.chance(50)) body.erase(at, r.range(1, 20)); else body = body.substr(0, at); }
        h.push_back(std::make_pair("Content-Type", "multipart/form-data; boundary=" + bd));
    }
    if (r.chance(30)) h.push_back(std::make_pair("Cookie", r.chance(50) ? "PSISESSIONID=" + rtoken(r, 10) : "a=b; PSISESSIONID"));
    std::string s = build(r, method, uri, h, body, method == "POST");
    c.note(q(s, 300)); c.nontrivial = true;
    std::string data = s + "next";
    Parsed parsed = real_parse(data, rcuts(r, data.size()));
    if (!damaged || !body.empty()) EQ(c, "verdict", parsed.verdict, std::string("ok"), [&]{ return q(s, 3000); });
    hs::request req; hs::reply rep; hs::request_parser p; boost::tribool v; 
    boost::tie(v, boost::tuples::ignore) = p.parse(req, data.begin(), data.end());
    if (!v) { c.count("refused"); return; }
    seen.clear(); calls = 0;
    handler->handle_request(req, rep);
    c.count("handled");
    if (damaged) { c.count("damaged-forms"); return; }
    std::map<std::string, std::string> want;
    for (size_t i = 0; i < fs.size(); ++i) { want[fs[i].name] = fs[i].value; if (fs[i].file) want[fs[i].name + "-filename"] = fs[i].filename; }
    auto show = [](const std::map<std::string, std::string>& m) { std::string o; for (auto& kv : m) o += "[" + q(kv.first) + "=" + q(kv.second, 2000) + "]"; return o; };
    EQ(c, "action-called", calls, 1, [&]{ return q(s, 3000); });
    EQ(c, "form-fields", show(seen), show(want), [&]{ return "request " + q(s, 3000); });
    EQ(c, "action-reply", rep.content, std::string("done  end"), [&]{ return q(s, 3000); });
    c.count("form-fields", fs.size());
}
}
void vf::run_case(Ctx& c) {
    int k = c.r.range(0, 9);
    if (k < 5) requests(c); else if (k < 7) mpfd(c); else forms(c);
}
VF_NO_SETUP
VF_MAIN

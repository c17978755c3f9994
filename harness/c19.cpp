// C19: sessions of the web server stay separate and no history of requests stops it.
// A real PsiServer with its sites, worker threads and sockets on the loopback interface; concurrent clients.
#include "h.hpp"
#include "psi_server.hpp"
#include "sess.hpp"
#include "pipe_runner.hpp"
#include "site/index_site.hpp"
#include "site/pipe_site.hpp"
#include "site/help_site.hpp"
#include "site/json_site.hpp"
#include "site/processor_documentation_site.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <fstream>
#include <dirent.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <poll.h>
using namespace vf;

namespace {
const char* PIPES[] = {"read-text ! simple-writer --tags frag", "read-text ! psi-writer", "txt-reader ! write-simple --sep , --tags frag", "read-text ! json-simple-writer --tags frag"};
const char* INITIAL_PIPE = "read-text ! write-simple --tags frag";
const char* INITIAL_TEXT = "initial";

// ---- the helper process that keeps connections open (forked before any thread exists)
int helper_w = -1, helper_r = -1;
void helper() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) return;
    if (fork() == 0) {
        close(a[1]); close(b[0]);
        for (int i = 3; i < 1024; ++i) if (i != a[0] && i != b[1]) close(i);
        std::vector<int> open_;
        for (;;) {
            int m[2]; if (read(a[0], m, sizeof m) != (ssize_t)sizeof m) _exit(0);
            if (m[0] == 0) { for (int f : open_) close(f); open_.clear(); }
            else for (int i = 0; i < m[0]; ++i) {
                int s = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); sockaddr_in x; memset(&x, 0, sizeof x);
                x.sin_family = AF_INET; x.sin_port = htons(m[1]); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                if (connect(s, (sockaddr*)&x, sizeof x) == 0 || errno == EINPROGRESS) open_.push_back(s); else close(s);
            }
            char k = 'k'; if (write(b[1], &k, 1) != 1) _exit(0);
        }
    }
    close(a[0]); close(b[1]); helper_w = a[1]; helper_r = b[0];
}
void flood(int n, int port) { int m[2] = {n, port}; if (write(helper_w, m, sizeof m) != (ssize_t)sizeof m) abort(); char k; if (read(helper_r, &k, 1) != 1) abort(); }

// ---- the server
struct World {
    PsiServer srv; IndexSite index; PipeSite pipe; HelpSite help; JsonSite json; ProcessorDocumentationSite doc;
    std::thread* runner; int port, threads;
    World(int n, const std::string& root) : srv("127.0.0.1", "0", str(n), root), index(srv), pipe(srv, INITIAL_PIPE, INITIAL_TEXT), help(srv), json(srv), doc(srv), threads(n) {
        port = srv.server_.acceptor_.local_endpoint().port();
        PsiServer* s = &srv;
        runner = new std::thread([s] { s->server_.run(); });
    }
    ~World() { srv.server_.stop(); runner->join(); delete runner; }
};
World* w; std::string root; long born = -1;
std::map<std::string, std::string> shape;       // pipe -> its output for the text @@@@ (a word of that length)
const int TOKLEN = 20;
std::string initial_out;

std::string slurp(const std::string& p) { std::ifstream i(p.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
void put(const std::string& p, const std::string& s) { std::ofstream o(p.c_str(), std::ios::binary); o << s; }
std::string run(const std::string& p, const std::string& text) { PipeRunner r(p); std::istringstream i(text); std::ostringstream o; r.run(i, o); return o.str(); }
void prepare() {
    root = std::string(getenv("VF_TMP")) + "/root";
    mkdir(root.c_str(), 0755); mkdir((root + "/help").c_str(), 0755); mkdir((root + "/storage").c_str(), 0755);
    put(root + "/index.html", "<html>INDEX</html>");
    put(root + "/psitoolkit.html", "<html>[[OPT]]<!--#psis pipe_site_options -->[[/OPT]]\n[[PIPE]]<!--#psis pipe_site_pipe_text -->[[/PIPE]]\n[[IN]]<!--#psis pipe_site_input_text -->[[/IN]]\n[[OUT]]<!--#psis pipe_site_output_text -->[[/OUT]]</html>");
    put(root + "/json.html", "<!--#psis json_site_output -->");
    put(root + "/help/processor-documentation.html", "[[N]]<!--#psis processor_documentation_site_processor_name -->[[/N]][[D]]<!--#psis processor_documentation_site_processor_documentation -->[[/D]]");
    std::string mark(TOKLEN, 'Q');
    for (const char* p : PIPES) {
        std::string o = run(p, mark); std::string t;
        for (size_t i = 0, k; ; i = k + TOKLEN) { k = o.find(mark, i); if (k == std::string::npos) { t += o.substr(i); break; } t += o.substr(i, k - i) + "@"; }
        shape[p] = t;
    }
    initial_out = run(INITIAL_PIPE, INITIAL_TEXT);
}
std::string output_of(const std::string& p, const std::string& tok) { std::string t; for (char ch : shape[p]) if (ch == '@') t += tok; else t += ch; return t; }
std::string html(const std::string& s) { std::string o; for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; default: o += c; } return o; }
std::string enc(const std::string& s) { std::string o; for (unsigned char c : s) if (isalnum(c)) o += c; else if (c == ' ') o += '+'; else { char b[8]; snprintf(b, sizeof b, "%%%02X", c); o += b; } return o; }

// ---- what is seen
std::atomic<long> answered(0), requests(0);
struct Event { int client; };
std::mutex order_m; std::string order_;

struct Shared {                     // one session, used by one or more clients
    std::string cookie; std::mutex m;
    std::string prefix;             // of its tokens
    bool alone;                     // one client only: replies are predictable
    // model of the session (when alone)
    bool has_in, has_pipe, has_out; std::string in, pipe, out, jsonout, docname, docmark, file, err; bool gone;
    Shared() : alone(true), has_in(false), has_pipe(false), has_out(false), gone(false) {}
};
struct Client {
    int id, port; Rng r; Shared* s; int steps; std::string key, msg, log; long checks; std::vector<std::string> ids; int seq; bool jitter;
    Client(int i, int p, uint64_t seed, Shared* sh, int st) : id(i), port(p), r(seed), s(sh), steps(st), checks(0), seq(0), jitter(r.chance(50)) {}
    struct Bad { std::string key, msg; };
    void fail(const std::string& k, const std::string& m) { throw Bad{k, m}; }
    void expect(bool ok, const std::string& k, const std::string& m) { ++checks; if (!ok) fail(k, "client " + str(id) + ": " + m); }
    int dial() {
        for (int t = 0; t < 200; ++t) {
            int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (f < 0) { usleep(20000); continue; }
            sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(port); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            timeval tv; tv.tv_sec = 60; tv.tv_usec = 0; setsockopt(f, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); setsockopt(f, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
            if (connect(f, (sockaddr*)&x, sizeof x) == 0) return f;
            int e = errno; close(f); if (e != EADDRNOTAVAIL && e != EAGAIN && e != EINTR) fail("refused", std::string("cannot connect: ") + strerror(e));
            usleep(20000);
        }
        fail("refused", "cannot connect"); return -1;
    }
    bool push(int f, const std::string& d) {
        size_t i = 0;
        while (i < d.size()) {
            size_t n = d.size() - i; if (jitter && n > 1 && r.chance(40)) { n = 1 + r.below(n); }
            ssize_t k = send(f, d.data() + i, n, MSG_NOSIGNAL); if (k < 0) { if (errno == EINTR) continue; return false; }
            i += k; if (jitter && r.chance(50)) usleep(r.below(1500));
        }
        return true;
    }
    bool pull(int f, std::string& d, bool& timeout) {
        timeout = false; char b[8192];
        for (;;) { ssize_t k = recv(f, b, sizeof b, 0); if (k > 0) d.append(b, k); else if (k == 0) return true; else if (errno == EINTR) continue; else { timeout = errno == EAGAIN || errno == EWOULDBLOCK; return false; } }
    }
    struct Reply { int status; std::map<std::string, std::string> h; std::string body; bool got; };
    void foreign(const std::string& what, const std::string& d, const std::string& own) {
        for (size_t p = 0; (p = d.find("TOK", p)) != std::string::npos; p += 3) { ++checks; if (own.empty() || d.compare(p, own.size(), own) != 0) fail("foreign-data", what + " shows " + q(d.substr(p, TOKLEN)) + ", which another client sent: " + q(d, 1500)); }
    }
    Reply talk(const std::string& raw, const std::string& what, bool wellformed, const std::string& own) {
        ++requests; int f = dial(); Reply rep; rep.status = 0; rep.got = false;
        push(f, raw); if (!wellformed || r.chance(20)) shutdown(f, SHUT_WR);
        std::string d; bool to; bool fine = pull(f, d, to); close(f);
        { std::lock_guard<std::mutex> g(order_m); order_ += (char)('a' + id % 26); }
        expect(!to, "no-answer", "no answer to " + what + " within 60 s (" + q(d, 200) + ")");
        foreign(what, d, own);
        if (!wellformed && d.empty()) return rep;
        size_t e = d.find("\r\n\r\n");
        if (!wellformed && !fine) return rep;
        expect(e != std::string::npos && d.compare(0, 9, "HTTP/1.0 ") == 0, "bad-reply", "no HTTP reply to " + what + ": " + q(d, 300));
        rep.status = atoi(d.c_str() + 9); rep.body = d.substr(e + 4); rep.got = true;
        for (size_t p = d.find("\r\n") + 2; p < e + 2; ) { size_t z = d.find("\r\n", p); std::string l = d.substr(p, z - p); size_t k = l.find(": "); if (k != std::string::npos) rep.h[l.substr(0, k)] = l.substr(k + 2); p = z + 2; }
        if (wellformed || rep.h.count("Content-Length")) expect(rep.h["Content-Length"] == str(rep.body.size()), "reply-length", what + ": Content-Length " + rep.h["Content-Length"] + " but " + str(rep.body.size()) + " bytes");
        ++answered; return rep;
    }
    void adopt(const Reply& rep, const std::string& what, bool had) {
        std::map<std::string, std::string>::const_iterator i = rep.h.find("Set-Cookie");
        if (i == rep.h.end()) return;
        expect(i->second.compare(0, 13, "PSISESSIONID=") == 0 && i->second.size() > 20, "cookie", what + " got the cookie " + i->second);
        std::string idn = i->second.substr(13, i->second.find(';') == std::string::npos ? std::string::npos : i->second.find(';') - 13);
        expect(!had, "session-lost", what + ": the server forgot the session " + s->cookie + " and began " + idn);
        ids.push_back(idn); s->cookie = idn;
    }
    std::string cookie() {
        if (s->cookie.empty()) return r.chance(50) ? "" : r.chance(50) ? "Cookie: a=b; c=d\r\n" : "Cookie: PSISESSIONID=111111-0000-zzzzzzzzzzzzz\r\n";
        switch (r.range(0, 3)) { case 0: return "Cookie: lang=pl; PSISESSIONID=" + s->cookie + "\r\n"; case 1: return "cookie: PSISESSIONID=" + s->cookie + "; x=y\r\n"; default: return "Cookie: PSISESSIONID=" + s->cookie + "\r\n"; }
    }
    Reply go(const std::string& method, const std::string& uri, const std::string& type, const std::string& body, const std::string& what) {
        bool had = !s->cookie.empty();
        std::string q1 = method + " " + uri + " HTTP/1." + (r.chance(50) ? "0" : "1") + "\r\nHost: localhost\r\n" + cookie();
        if (method == "POST") q1 += "Content-Type: " + type + "\r\nContent-Length: " + str(body.size()) + "\r\n";
        q1 += "\r\n" + body;
        Reply rep = talk(q1, what, true, s->prefix);
        adopt(rep, what, had);
        return rep;
    }
    std::string tok() { char b[64]; snprintf(b, sizeof b, "%sN%d", s->prefix.c_str(), id * 1000 + seq++); std::string t = b; while ((int)t.size() < TOKLEN) t += 'E'; return t; }
    static std::string part(const std::string& d, const std::string& n) { size_t a = d.find("[[" + n + "]]"), b = d.find("[[/" + n + "]]"); if (a == std::string::npos || b == std::string::npos) return "<none>"; a += n.size() + 4; return d.substr(a, b - a); }
    std::string opt(const std::string& o, const std::string& k) { size_t a = o.find("'" + k + "' : '"); if (a == std::string::npos) return "<none>"; a += k.size() + 6; return o.substr(a, o.find('\'', a) - a); }
    void page(const Reply& rep, const std::string& what) {             // of the pipe site
        expect(rep.status == 200, "status", what + ": " + str(rep.status));
        if (!s->alone) return;
        if (!s->has_pipe) { s->has_pipe = true; s->pipe = INITIAL_PIPE; } if (!s->has_in) { s->has_in = true; s->in = INITIAL_TEXT; } if (!s->has_out) { s->has_out = true; s->out = initial_out; }
        std::string p = part(rep.body, "PIPE"), i = part(rep.body, "IN"), o = part(rep.body, "OUT"), t = part(rep.body, "OPT");
        expect(p == html(s->pipe), "own-pipe", what + " shows the pipe " + q(p) + ", sent " + q(s->pipe));
        expect(i == s->in, "own-input", what + " shows the input " + q(i) + ", sent " + q(s->in));
        if (s->gone) { expect(o.find("There are some problems") != std::string::npos, "own-output", what + " shows " + q(o) + " for a broken pipe"); expect(!opt(t, "errorOccured").empty(), "own-error", what + " shows no error"); }
        else expect(o == "<pre>" + html(s->out) + "</pre>", "own-output", what + " shows the output " + q(o) + ", want " + q(s->out));
        std::string f = opt(t, "fileToDownload");
        if (!s->file.empty()) expect(f == s->file, "own-file", what + " offers the file " + q(f) + ", was " + q(s->file));
        else s->file = f == "<none>" ? "" : f;
    }
    void step() {
        switch (r.range(0, 15)) {
            case 0: { log += " index"; Reply rep = go("GET", "/", "", "", "GET /"); expect(rep.status == 200 && rep.body == "<html>INDEX</html>", "index", "GET / gives " + q(rep.body)); break; }
            case 1: case 2: case 3: {                                   // run a pipe
                std::string t = tok(), p = PIPES[r.below(3)]; bool viafile = r.chance(25), bad = r.chance(15), multi = viafile || r.chance(40);
                if (bad) p = r.chance(50) ? std::string("no-such-processor") : r.chance(50) ? std::string("read-text ! ! write") : "read-text --no-such-option";
                std::string body, type;
                if (!multi) { type = "application/x-www-form-urlencoded"; body = "pipe-text=" + enc(p) + "&input-text=" + enc(t); if (r.chance(30)) body += "&output-type=txt&"; }
                else {
                    std::string bd = "----B" + str(id) + "x" + str(seq); type = "multipart/form-data; boundary=" + bd;
                    body = "--" + bd + "\r\nContent-Disposition: form-data; name=\"pipe-text\"\r\n\r\n" + p + "\r\n";
                    if (!viafile) body += "--" + bd + "\r\nContent-Disposition: form-data; name=\"input-text\"\r\n\r\n" + t + "\r\n";
                    else { body += "--" + bd + "\r\nContent-Disposition: form-data; name=\"input-file\"; filename=\"f.txt\"\r\nContent-Type: text/plain\r\n\r\n" + t + "\r\n"; body += "--" + bd + "\r\nContent-Disposition: form-data; name=\"radio-file\"\r\n\r\non\r\n"; }
                    body += "--" + bd + "--\r\n";
                }
                log += " pipe"; if (viafile) log += "-file"; if (bad) log += "-bad";
                // the model first: a page is shown by the same request
                if (s->alone) {
                    s->has_pipe = s->has_out = true; s->pipe = p; s->gone = bad; s->out = bad ? "" : output_of(p, t); s->file = "";
                    if (!viafile) { s->has_in = true; s->in = t; }
                }
                Reply rep = go("POST", "/pipe.psis", type, body, "POST /pipe.psis (" + p + ", " + t + (viafile ? ", file" : "") + ")");
                page(rep, "the reply to POST /pipe.psis (" + p + ", " + t + (viafile ? ", file" : "") + ")");
                if (s->alone && !bad && !s->file.empty() && r.chance(50)) {
                    log += " download"; std::string fn = s->file; Reply g = go("GET", fn, "", "", "GET " + fn);
                    expect(g.status == 200 && g.body == s->out, "stored-file", "the file " + fn + " holds " + q(g.body) + ", the output was " + q(s->out));
                }
                break;
            }
            case 4: { log += " page"; Reply rep = go("GET", "/psitoolkit.html", "", "", "GET /psitoolkit.html"); page(rep, "GET /psitoolkit.html"); break; }
            case 5: case 6: {
                std::string t = tok(), p = r.chance(70) ? PIPES[r.below(3)] : r.chance(70) ? PIPES[3] : "no-such-processor " + t; log += " json";
                std::string v = "pipe=" + enc(p) + "&input=" + enc(t);
                Reply rep = r.chance(50) ? go("GET", "/json.psis?" + v, "", "", "GET /json.psis (" + p + ", " + t + ")") : go("POST", "/json.psis", "application/x-www-form-urlencoded", v, "POST /json.psis (" + p + ", " + t + ")");
                expect(rep.status == 200, "status", "json.psis: " + str(rep.status));
                if (s->alone) { expect(rep.body.find("\"input\": \"" + t + "\"") != std::string::npos, "own-json", "json.psis for " + t + " gives " + q(rep.body)); s->jsonout = rep.body; }
                break;
            }
            case 7: { log += " jsonpage"; Reply rep = go("GET", "/json.html", "", "", "GET /json.html"); if (s->alone) expect(rep.body == (s->jsonout.empty() ? "{}" : s->jsonout), "own-json-page", "GET /json.html gives " + q(rep.body) + ", want " + q(s->jsonout)); break; }
            case 8: case 9: {
                bool real = r.chance(30); std::string n = real ? (r.chance(50) ? "txt-reader" : "psi-writer") : tok(); log += " doc";
                Reply rep = go("GET", "/help/processor.psis?name=" + enc(n), "", "", "GET /help/processor.psis " + n);
                if (s->alone) { s->docname = part(rep.body, "N"); s->docmark = part(rep.body, "D"); expect(s->docname == (real ? n : "processor not found"), "own-doc", "the documentation of " + n + " is of " + s->docname); expect(s->docmark.find(n) != std::string::npos, "own-doc", "the documentation of " + n + " is " + q(s->docmark)); }
                break;
            }
            case 10: {
                log += " docpage"; Reply rep = go("GET", "/help/processor-documentation.html", "", "", "GET /help/processor-documentation.html");
                if (s->alone && !s->docname.empty()) expect(part(rep.body, "N") == s->docname && part(rep.body, "D") == s->docmark, "own-doc-page", "the documentation page is about " + q(part(rep.body, "N")) + ", asked for " + q(s->docname));
                break;
            }
            case 11: {                                                  // a stranger looks at every page
                log += " stranger"; static const char* u[] = {"/psitoolkit.html", "/json.html", "/help/processor-documentation.html", "/", "/nothing.html", "/json.psis?pipe=&input=", "/help/processor.psis?x=y"};
                std::string uri = u[r.below(7)]; Reply rep = talk("GET " + uri + " HTTP/1.0\r\n" + (r.chance(50) ? "Cookie: PSISESSIONID=\r\n" : r.chance(50) ? "Cookie: PSISESSIONID\r\n" : r.chance(50) ? "Cookie: " + s->prefix + "PSISESSIONID=" + s->prefix + "\r\n" : "") + "\r\n", "a stranger's GET " + uri, true, "");
                expect(rep.h.count("Set-Cookie"), "cookie", "a client without a session got no cookie for " + uri); ids.push_back(rep.h["Set-Cookie"].substr(13)); break;
            }
            case 12: {                                                  // malformed requests
                log += " malformed"; std::string raw; int k = r.range(0, 9);
                switch (k) {
                    case 0: raw = rand_bytes(r, 400); break;
                    case 1: raw = "GET / HTTP/1.0\r\n: x\r\n\r\n"; break;
                    case 2: raw = "POST /pipe.psis HTTP/1.0\r\nContent-Length: -5\r\n\r\n"; break;
                    case 3: raw = "POST /pipe.psis HTTP/1.0\r\nContent-Length: 99999999999999999999\r\n\r\nx"; break;
                    case 4: raw = "POST /pipe.psis HTTP/1.0\r\n\r\n"; break;
                    case 5: raw = "POST /pipe.psis HTTP/1.0\r\nContent-Type: multipart/form-data;\r\nContent-Length: 4\r\n\r\nabcd"; break;
                    case 6: raw = "POST /pipe.psis HTTP/1.0\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 30\r\n\r\n--b\r\nContent-Disposition: x\r\n\r\n"; break;
                    case 7: raw = "GET /%zz HTTP/1.0\r\n\r\n"; break;
                    case 8: raw = "GET /pipe.psis?" + rand_bytes(r, 60) + " HTTP/1.0\r\n\r\n"; break;
                    default: raw = "GET /../../etc/passwd HTTP/9.9\r\n\r\n"; break;
                }
                talk(raw, "the malformed request " + q(raw, 120), false, ""); break;
            }
            case 13: {                                                  // goes away halfway
                log += " abort"; ++requests; int f = dial(); std::string t = tok(), body = "pipe-text=" + enc(PIPES[0]) + "&input-text=" + t;
                std::string raw = "POST /pipe.psis HTTP/1.0\r\nContent-Length: " + str(body.size()) + "\r\n\r\n" + body;
                push(f, raw.substr(0, r.below(raw.size()))); if (r.chance(50)) { linger l; l.l_onoff = 1; l.l_linger = 0; setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(f); break;
            }
            case 14: {                                                  // the whole request, but does not wait for the reply
                log += " leave"; ++requests; int f = dial(); push(f, "GET /psitoolkit.html HTTP/1.0\r\n\r\n"); linger l; l.l_onoff = 1; l.l_linger = 0; setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(f); break;
            }
            default: {
                log += " odd"; int k = r.range(0, 3);
                if (k == 0) { Reply rep = go("POST", "/json.psis", "application/x-www-form-urlencoded", "", "an empty POST"); if (s->alone) s->jsonout = rep.body; }
                else if (k == 1) go("GET", "/nothing" + str(r.below(5)) + ".html", "", "", "GET of nothing");
                else if (k == 2) go("GET", "/help/processor-documentation.html?x", "", "", "GET with a query");
                else if (s->alone) { std::string big(524289, 'x'); Reply rep = go("POST", "/pipe.psis", "application/x-www-form-urlencoded", "input-text=" + big, "a too large text"); s->has_in = true; s->in = big; s->gone = true; s->has_out = true; s->file = ""; if (!s->has_pipe) { s->has_pipe = true; s->pipe = INITIAL_PIPE; } page(rep, "the reply to a too large text"); s->has_in = false; Reply r2 = go("POST", "/pipe.psis", "application/x-www-form-urlencoded", "input-text=&pipe-text=" + enc(PIPES[0]), "an empty text"); s->pipe = PIPES[0]; s->gone = false; s->out = initial_out; s->file = ""; page(r2, "the reply to an empty text"); }
            }
        }
    }
    void work() {
        try { for (int i = 0; i < steps; ++i) step(); }
        catch (Bad& b) { key = b.key; msg = b.msg; }
        catch (std::exception& e) { key = "client-error"; msg = e.what(); }
    }
};
}
void vf::run_case(Ctx& c) {
    if (root.empty()) prepare();
    Rng& r = c.r;
    static int left = 0;
    if (left-- <= 0) {
        delete w; w = 0; vf::forget_sessions();
        DIR* d = opendir((root + "/storage").c_str()); while (dirent* e = readdir(d)) if (e->d_name[0] != '.') unlink((root + "/storage/" + e->d_name).c_str()); closedir(d);
        static const int th[] = {1, 2, 2, 3, 4, 8}; w = new World(th[r.below(6)], root); left = r.range(3, 12);
    }
    int sessions = r.range(2, 6);
    std::vector<Shared*> ss; std::vector<Client*> cs;
    for (int i = 0; i < sessions; ++i) { Shared* s = new Shared; s->prefix = "TOK" + std::string(1, 'A' + i) + "Z" + std::string(1, 'A' + (int)r.below(26)) + std::string(1, 'A' + (int)r.below(26)) + "x"; ss.push_back(s); }
    bool shared = r.chance(25), floods = r.chance(6);
    c.kind = floods ? "flooded" : shared ? "shared-sessions" : "separate-sessions";
    c.note(str(w->threads) + " worker threads, " + str(sessions) + " sessions" + (shared ? ", some with two clients" : "") + (floods ? ", out of descriptors on the way" : ""));
    for (int i = 0; i < sessions; ++i) {
        int n = shared && r.chance(50) ? 2 : 1; ss[i]->alone = n == 1;
        if (n == 2) { Client first(90 + i, w->port, r.next(), ss[i], 0); first.go("GET", "/", "", "", "GET /"); }
        for (int k = 0; k < n; ++k) cs.push_back(new Client((int)cs.size(), w->port, r.next(), ss[i], r.range(4, 12)));
    }
    { std::lock_guard<std::mutex> g(order_m); order_.clear(); }
    long before = answered;
    std::vector<std::thread*> ts;
    if (floods) {
        // all descriptors of the server are taken by connections nobody uses
        rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); int used = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++used; closedir(d);
        lim = old; lim.rlim_cur = used + 8; setrlimit(RLIMIT_NOFILE, &lim);
        flood(60, w->port); usleep(60000); flood(0, 0); setrlimit(RLIMIT_NOFILE, &old);
        c.count("floods");
    }
    for (Client* k : cs) ts.push_back(new std::thread([k] { k->work(); }));
    for (std::thread* t : ts) { t->join(); delete t; }
    std::string ord; { std::lock_guard<std::mutex> g(order_m); ord = order_; }
    c.ident(str(w->threads) + ":" + ord); c.nontrivial = ord.size() > 4;
    c.count("requests", requests.exchange(0)); c.count("replies", answered - before); c.count("clients", cs.size());
    int switches = 0; for (size_t i = 1; i < ord.size(); ++i) if (ord[i] != ord[i - 1]) ++switches; c.count("switches-between-clients", switches);
    std::string key, msg; std::set<std::string> ids; long nid = 0;
    for (Client* k : cs) { c.note("client " + str(k->id) + " (" + k->s->prefix + "):" + k->log); c.count("monitor_checks", k->checks); if (key.empty()) { key = k->key; msg = k->msg; } for (auto& i : k->ids) { ids.insert(i); ++nid; } }
    c.note("replies in the order " + ord);
    for (Client* k : cs) delete k; for (Shared* s : ss) delete s;
    if (!key.empty()) { left = 0; c.fail(key, msg); }
    c.expect((long)ids.size() == nid, "session-ids", str(nid) + " new sessions got " + str(ids.size()) + " different identifiers");
    c.count("session-ids", nid);
    // still there?
    Shared fresh; fresh.prefix = "FRESH"; Client last(99, w->port, r.next(), &fresh, 0);
    try { Client::Reply rep = last.go("GET", "/psitoolkit.html", "", "", "the last GET /psitoolkit.html"); last.page(rep, "a new client's page"); rep = last.go("GET", "/json.html", "", "", "the last GET /json.html"); last.expect(rep.body == "{}", "own-json-page", "a new client's /json.html is " + q(rep.body)); }
    catch (Client::Bad& b) { left = 0; c.fail(b.key, b.msg); }
    c.count("monitor_checks", last.checks);
}
namespace vf { void setup(const std::string&) { signal(SIGPIPE, SIG_IGN); helper(); } }
VF_MAIN

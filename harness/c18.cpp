// C18: the web server answers with files below its document root only, and with the right one.
#include "h.hpp"
#include "request.hpp"
#include "reply.hpp"
#include "psi_server.hpp"
#include "psi_request_handler.hpp"
#include "sess.hpp"
#include <fstream>
#include <dirent.h>
using namespace vf;
namespace hs = http::server3;

namespace {
const char* SECRET = "TOP-SECRET-OUTSIDE-THE-ROOT";
std::string base; int serial;
struct World {
    std::string dir, root;
    std::map<std::string, std::string> files;       // path below the root (with a leading slash) -> content
    std::set<std::string> dirs;                     // "" and "/a", "/a/b"
    std::vector<std::string> outside;               // names relative to dir
    PsiServer* srv; PsiRequestHandler* psi; hs::request_handler* plain;
};
World* w;

std::string seg(Rng& r) {
    switch (r.range(0, 7)) {
        case 0: { static const char* n[] = {"index.html", "a b.txt", "x+y.html", "100%.txt", "%2e%2e", "..html", "a..b.html", ".hidden", "...", "q?x=1.html", "a&b.png", "~", "UPPER.HTML", "noext", "x.tar.gz", "\xC5\xBC\xC3\xB3\xC5\x82w.html", "\\..\\x.txt", "a;b", "root", "secret.txt", "etc"}; return n[r.below(sizeof n / sizeof *n)]; }
        case 1: { std::string s; int n = r.range(1, 6); for (int i = 0; i < n; ++i) { char c; do c = (char)r.range(1, 255); while (c == '/'); s += c; } return s == "." || s == ".." ? "dot" : s; }
        default: { std::string s; int n = r.range(1, 6); for (int i = 0; i < n; ++i) s += (char)('a' + r.below(4)); if (r.chance(50)) { static const char* e[] = {".html", ".png", ".txt", ".js", ".css", ".psis", ".gif"}; s += e[r.below(7)]; } return s; }
    }
}
std::string content(Rng& r) {
    static const int sz[] = {0, 1, 511, 512, 513, 1024, 2000};
    int n = r.chance(50) ? sz[r.below(7)] : (int)r.below(1600);
    std::string s; bool text = r.chance(50);
    for (int i = 0; i < n; ++i) s += text ? (char)r.range(32, 126) : (char)r.below(256);
    for (size_t p; (p = s.find("<!--#")) != std::string::npos; ) s[p] = '_';
    return s;
}
void put(const std::string& p, const std::string& s) { std::ofstream o(p.c_str(), std::ios::binary); o << s; }
void world(Rng& r) {
    if (base.empty()) base = getenv("VF_TMP");
    if (w) {
        for (auto& f : w->files) unlink((w->root + f.first).c_str());
        for (auto i = w->dirs.rbegin(); i != w->dirs.rend(); ++i) rmdir((w->root + *i).c_str());
        for (auto& o : w->outside) unlink((w->dir + "/" + o).c_str());
        rmdir((w->root + "-private").c_str()); rmdir((w->dir + "/etc").c_str()); rmdir(w->dir.c_str());
        delete w->plain; delete w->psi; delete w->srv; delete w;
        vf::forget_sessions();
    }
    w = new World; w->dir = base + "/w" + str(serial++); w->root = w->dir + "/root";
    mkdir(w->dir.c_str(), 0755); mkdir(w->root.c_str(), 0755); mkdir((w->root + "-private").c_str(), 0755); mkdir((w->dir + "/etc").c_str(), 0755);
    w->dirs.insert("");
    std::vector<std::string> ds(1, "");
    for (int i = r.range(0, 5); i > 0; --i) { std::string d = r.pick(ds) + "/" + seg(r); if (mkdir((w->root + d).c_str(), 0755) == 0) { w->dirs.insert(d); ds.push_back(d); } }
    for (int i = r.range(1, 10); i > 0; --i) {
        std::string f = r.pick(ds) + "/" + (r.chance(25) ? std::string("index.html") : seg(r));
        if (w->dirs.count(f)) continue;
        std::string t = content(r); put(w->root + f, t);
        struct stat st; if (stat((w->root + f).c_str(), &st) == 0) w->files[f] = t;
    }
    static const char* out[] = {"secret.txt", "index.html", "root-private/secret.txt", "root-private/index.html", "etc/passwd", "rootsecret.txt", "root.html"};
    for (size_t i = 0; i < sizeof out / sizeof *out; ++i) { put(w->dir + "/" + out[i], std::string(SECRET) + " " + out[i]); w->outside.push_back(out[i]); }
    w->srv = new PsiServer("127.0.0.1", "0", "1", w->root);
    w->psi = new PsiRequestHandler(w->root, w->srv);
    w->plain = new hs::request_handler(w->root);
}
int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
bool decodeuri(const std::string& u, std::string& p) {
    p.clear();
    for (size_t i = 0; i < u.size(); ++i) {
        if (u[i] == '%') {
            if (i + 2 >= u.size() || hexv(u[i + 1]) < 0 || hexv(u[i + 2]) < 0) return false;
            p += (char)(hexv(u[i + 1]) * 16 + hexv(u[i + 2])); i += 2;
        } else p += u[i] == '+' ? ' ' : u[i];
    }
    return true;
}
std::string pct(Rng& r, unsigned char c) { char b[8]; snprintf(b, sizeof b, r.chance(50) ? "%%%02X" : "%%%02x", c); return b; }
std::string encode(Rng& r, const std::string& p, int mode) {       // mode 0: what must be, 1: some more, 2: everything
    std::string o;
    for (size_t i = 0; i < p.size(); ++i) {
        unsigned char c = p[i];
        if (c == ' ' && r.chance(50)) o += '+';
        else if (c <= 32 || c == 127 || c == '%' || c == '+' || mode == 2 || (mode == 1 && r.chance(25))) o += pct(r, c);
        else o += c;
    }
    return o;
}
std::string raw(Rng& r) {           // a decoded path to ask for
    std::string p;
    switch (r.range(0, 9)) {
        case 0: case 1: case 2: case 3: if (!w->files.empty()) { auto i = w->files.begin(); std::advance(i, r.below(w->files.size())); p = i->first; if (r.chance(20)) { size_t k = p.rfind('/'); if (p.substr(k) == "/index.html") p = p.substr(0, k + 1); } break; }   // fallthrough
        case 4: { auto i = w->dirs.begin(); std::advance(i, r.below(w->dirs.size())); p = *i + (r.chance(60) ? "/" : ""); break; }
        case 5: { auto i = w->dirs.begin(); std::advance(i, r.below(w->dirs.size())); p = *i + "/" + seg(r); break; }
        case 6: case 7: case 8: {                                     // out of the root and to a secret
            auto i = w->dirs.begin(); std::advance(i, r.below(w->dirs.size()));
            int up = std::count(i->begin(), i->end(), '/') + 1;
            p = *i; for (int k = 0; k < up; ++k) p += r.chance(85) ? "/.." : r.chance(50) ? "/./.." : "//..";
            p += "/" + r.pick(w->outside); break;
        }
        default: p = r.chance(30) ? "-private/secret.txt" : r.chance(30) ? "secret.txt" : r.chance(50) ? w->dir + "/secret.txt" : "../secret.txt"; break;
    }
    int k = r.range(0, 15);
    if (k == 0) { size_t at = r.below(p.size() + 1); p.insert(at, "/"); }
    else if (k == 1) { size_t at = p.find('/'); if (at != std::string::npos) p.insert(at, "/."); }
    else if (k == 2) p += std::string(1, '\0') + (r.chance(50) ? ".html" : r.chance(50) ? "/" : "");
    else if (k == 3) p += "?x=1";
    else if (k == 4) for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/' && r.chance(50)) p[i] = '\\';
    return p;
}
std::string normal(const std::string& p, bool& escapes) {            // lexical
    std::vector<std::string> v; escapes = false; std::string cur;
    for (size_t i = 0; i <= p.size(); ++i) {
        if (i == p.size() || p[i] == '/') {
            if (cur == "..") { if (v.empty()) escapes = true; else v.pop_back(); }
            else if (cur != "." && !cur.empty()) v.push_back(cur);
            cur.clear();
        } else cur += p[i];
    }
    std::string o; for (size_t i = 0; i < v.size(); ++i) o += "/" + v[i];
    return o;
}
void ask(Ctx& c) {
    Rng& r = c.r;
    std::string uri; std::string p0 = raw(r);
    uri = encode(r, p0, r.range(0, 2));
    int k = r.range(0, 19);
    if (k == 0) { static const char* bad[] = {"%", "%2", "%zz", "%-1", "%+1", "% 1", "%0x", "%x0", "%2g", "%g2", "%%", "%.2", "%2."}; uri.insert(r.below(uri.size() + 1), bad[r.below(13)]); }
    else if (k == 1) { std::string o; for (size_t i = 0; i < uri.size(); ++i) if (uri[i] == '%') o += "%25"; else o += uri[i]; uri = o; }        // encoded twice
    else if (k == 2) { for (size_t i; (i = uri.find("..")) != std::string::npos; ) uri.replace(i, 2, r.chance(50) ? "%c0%ae%c0%ae" : "%2e%252e"); }
    else if (k == 3) { size_t i = uri.find(".."); if (i != std::string::npos) uri.replace(i, 2, r.chance(30) ? ".%2e" : r.chance(50) ? "%2e." : "%2E%2E"); }
    else if (k == 4) { uri = rand_bytes(r, 20); }
    std::string path; bool good = decodeuri(uri, path);
    bool must_err = !good || path.empty() || path[0] != '/' || path.find('\0') != std::string::npos, escapes = false;
    std::string target; bool exists = false;
    if (!must_err) {
        if (path[path.size() - 1] == '/') path += "index.html";
        target = normal(path, escapes);
        exists = !escapes && w->files.count(target);
        // a path through something that is no directory names nothing
        bool plainpath = path.find("..") == std::string::npos;
        if (exists && path[path.size() - 1] == '.') { std::string last = path.substr(path.rfind('/') + 1); if (last == "." || last == "..") exists = false; }
        if (!plainpath) { c.count("paths-with-dotdot"); }
    }
    bool mustok = exists && path.find("..") == std::string::npos;
    bool psi = r.chance(50) && uri.find(".psis") == std::string::npos;
    hs::request req; req.method = r.chance(90) ? "GET" : "HEAD"; req.uri = uri; req.http_version_major = 1; req.http_version_minor = 1;
    hs::reply rep;
    std::string how = std::string(psi ? "psi" : "plain") + " request for " + q(uri) + " (path " + q(path) + ")";
    c.note(how);
    if (psi) w->psi->handle_request(req, rep); else w->plain->handle_request(req, rep);
    bool ok = rep.status == hs::reply::ok;
    c.count(ok ? "served" : "refused"); if (escapes) c.count("escaping-requests");
    c.expect(rep.content.find("TOP-SECRET") == std::string::npos, "outside-disclosed", how + " discloses " + q(rep.content));
    if (must_err) c.expect(!ok, "malformed-served", how + " answered with a file: " + q(rep.content, 200));
    else if (!exists) c.expect(!ok, "nothing-served", how + " names no file, but got " + str((int)rep.status) + " with " + q(rep.content, 200));
    else if (mustok) c.expect(ok, "file-refused", how + " names a file, but got " + str((int)rep.status));
    if (ok && exists) {
        c.expect(rep.content == w->files[target], "wrong-content", how + ": " + str(rep.content.size()) + " bytes " + q(rep.content, 300) + ", want " + str(w->files[target].size()) + " bytes " + q(w->files[target], 300));
        c.nontrivial = true;
    }
    std::string len = "none", type;
    for (size_t i = 0; i < rep.headers.size(); ++i) { if (rep.headers[i].name == "Content-Length") len = rep.headers[i].value; if (rep.headers[i].name == "Content-Type") type = rep.headers[i].value; }
    c.eq(len, str(rep.content.size()), "content-length", how);
    c.expect(!type.empty(), "content-type", how + " has no content type");
    // what goes over the wire: status line, headers, empty line, content
    std::string wire; std::vector<boost::asio::const_buffer> bs = rep.to_buffers();
    for (size_t i = 0; i < bs.size(); ++i) wire.append(boost::asio::buffer_cast<const char*>(bs[i]), boost::asio::buffer_size(bs[i]));
    size_t e = wire.find("\r\n\r\n");
    c.expect(e != std::string::npos && wire.substr(e + 4) == rep.content, "wire-content", how + ": " + q(wire, 500));
    c.expect(wire.substr(0, 9) == "HTTP/1.0 " && wire.substr(9, 3) == str((int)rep.status), "wire-status", how + ": " + q(wire, 100));
}
}
void vf::run_case(Ctx& c) {
    world(c.r);
    c.kind = "requests";
    std::string tree; for (auto& f : w->files) tree += " " + q(f.first) + "(" + str(f.second.size()) + ")"; for (auto& d : w->dirs) tree += " " + q(d + "/");
    c.note("root with" + tree);
    for (int i = 0; i < 8; ++i) ask(c);
}
VF_NO_SETUP
VF_MAIN

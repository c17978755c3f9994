// Shared runtime of the monitoring harnesses: seeded generators, case bookkeeping,
// violation reporting.  Every harness defines  void run_case(Ctx&)  and may define probes.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>

namespace vf {

inline uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
inline uint64_t hashs(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; }
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ULL; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }   // inclusive
    bool chance(int pct) { return (int)below(100) < pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // small-biased size
    int size(int mx) { int k = range(0, 3); if (k == 0) return range(0, std::min(mx, 3)); if (k == 1) return range(0, std::min(mx, 10)); return range(0, mx); }
};

inline std::string utf8(uint32_t c) {
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xC0 | (c >> 6)); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xE0 | (c >> 12)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xF0 | (c >> 18)); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}
inline bool valid_scalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
// strict UTF-8 decoding; returns false when s is not well formed
inline bool decode(const std::string& s, std::vector<uint32_t>& out) {
    out.clear();
    size_t i = 0;
    while (i < s.size()) {
        unsigned char c = s[i];
        int n; uint32_t v;
        if (c < 0x80) { n = 0; v = c; }
        else if (c >= 0xC2 && c < 0xE0) { n = 1; v = c & 31; }
        else if (c >= 0xE0 && c < 0xF0) { n = 2; v = c & 15; }
        else if (c >= 0xF0 && c < 0xF5) { n = 3; v = c & 7; }
        else return false;
        if (i + n >= s.size()) return false;
        for (int k = 1; k <= n; ++k) {
            unsigned char d = s[i + k];
            if ((d & 0xC0) != 0x80) return false;
            v = (v << 6) | (d & 63);
        }
        if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || !valid_scalar(v)) return false;
        out.push_back(v);
        i += n + 1;
    }
    return true;
}
// byte offsets of the character starts, with size() at the end (s must be valid UTF-8)
inline std::vector<size_t> bounds(const std::string& s) {
    std::vector<size_t> b;
    for (size_t i = 0; i < s.size(); ++i)
        if (((unsigned char)s[i] & 0xC0) != 0x80) b.push_back(i);
    b.push_back(s.size());
    return b;
}

inline uint32_t rand_char(Rng& r) {
    static const uint32_t pl[] = {0x105,0x107,0x119,0x142,0x144,0xF3,0x15B,0x17A,0x17C,0x104,0x106,0x118,0x141,0x143,0xD3,0x15A,0x179,0x17B};
    static const char* punct = ".,;:!?-'\"()[]{}<>/\\|&%$#@*+=_~^`";
    switch (r.range(0, 11)) {
        case 0: case 1: case 2: return 'a' + r.below(26);
        case 3: return 'A' + r.below(26);
        case 4: return '0' + r.below(10);
        case 5: return " \t\n "[r.below(4)];
        case 6: return pl[r.below(sizeof(pl) / sizeof(pl[0]))];
        case 7: case 8: return (unsigned char)punct[r.below(strlen(punct))];
        case 9: return 0x400 + r.below(0x60);
        case 10: { static const uint32_t x[] = {0x2026,0x2013,0x201E,0x201D,0xA0,0x4E2D,0x1F600,0x10FFFF,0x301,0xFEFF,0x20AC,0xDF,0x3B1,0x130,0x131,0xFFFD,0xE000,0x7FF,0x800,0xFFFF,0x10000}; return x[r.below(sizeof(x) / sizeof(x[0]))]; }
        default: { uint32_t c; do c = r.chance(50) ? 0x80 + r.below(0x3000) : r.below(0x110000); while (!valid_scalar(c) || c == 0); return c; }
    }
}
inline std::string rand_text(Rng& r, int maxlen) {
    std::string s; int n = r.size(maxlen);
    for (int i = 0; i < n; ++i) s += utf8(rand_char(r));
    return s;
}
inline std::string rand_word(Rng& r, int maxlen) {
    std::string s; int n = r.range(1, maxlen);
    for (int i = 0; i < n; ++i) { uint32_t c; do c = rand_char(r); while (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= 0xC0 && c < 0x460))); s += utf8(c); }
    return s;
}
inline std::string rand_bytes(Rng& r, int maxlen) {
    std::string s; int n = r.size(maxlen);
    for (int i = 0; i < n; ++i) s += (char)r.below(256);
    return s;
}

inline std::string q(const std::string& s, size_t lim = 400) {       // printable quoting for messages
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < lim; ++i) {
        unsigned char c = s[i];
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += c;
    }
    if (s.size() > lim) o += "...";
    return o + "\"";
}
inline std::string js(const std::string& s) {                        // JSON string of ASCII-fied s
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
template <class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }

struct Violation { std::string key, msg; Violation(const std::string& k, const std::string& m) : key(k), msg(m) {} };

struct Ctx {
    Rng r;
    long index;
    uint64_t seed;
    bool thorough;
    std::string kind;              // short name of the case's family
    std::string trace;             // description of the case so far
    uint64_t h;                    // identity of the case
    bool nontrivial;
    static std::map<std::string, long>& counters() { static std::map<std::string, long> c; return c; }
    Ctx(uint64_t sd, long i, bool th) : r(mix(mix(sd) ^ mix((uint64_t)i * 0x51ED27ULL + 7))), index(i), seed(sd), thorough(th), h(mix(i)), nontrivial(false) {}
    void note(const std::string& s) { trace += s; trace += '\n'; h = mix(h ^ hashs(s)); if (getenv("VF_TRACE")) { fputs(s.c_str(), stderr); fputc('\n', stderr); } }
    void ident(const std::string& s) { h = hashs(s, 99); }
    void count(const char* what, long n = 1) { counters()[what] += n; }
    void fail(const std::string& key, const std::string& msg) { throw Violation(key, msg); }
    void expect(bool ok, const std::string& key, const std::string& msg) { count("monitor_checks"); if (!ok) fail(key, msg); }
    template <class A, class B> void eq(const A& got, const B& want, const std::string& key, const std::string& what) {
        count("monitor_checks");
        if (!(got == want)) fail(key, what + ": got " + q(str(got)) + ", want " + q(str(want)));
    }
};

struct Probe { std::string key; std::function<void(Ctx&)> f; };
inline std::vector<Probe>& probes() { static std::vector<Probe> p; return p; }
struct AddProbe { AddProbe(const char* k, std::function<void(Ctx&)> f) { Probe p; p.key = k; p.f = f; probes().push_back(p); } };

void run_case(Ctx& c);
void setup(const std::string& arg);

struct State { FILE* out; int cur; long index; char label[64]; };
inline State& st() { static State s; return s; }

inline void on_alarm(int) {
    const char m[] = "VF-HANG: the case exceeded its CPU budget\n";
    ssize_t z = write(2, m, sizeof m - 1); (void)z;
    abort();
}
inline void arm(int sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, 0);
}
inline void mark(const char* what, long i) {
    char b[96]; int n = snprintf(b, sizeof b, "%-8s %16ld\n", what, i);
    ssize_t z = pwrite(st().cur, b, n, 0); (void)z;
}
inline void emit_violation(const std::string& key, const std::string& msg, Ctx& c, const char* what) {
    std::string tr = c.trace;
    if (tr.size() > 12000) tr = tr.substr(0, 12000) + "...";
    fprintf(st().out, "{\"t\":\"viol\",\"key\":%s,\"msg\":%s,\"what\":\"%s\",\"case\":%ld,\"seed\":%llu,\"kind\":%s,\"trace\":%s}\n",
            js(key).c_str(), js(msg).c_str(), what, c.index, (unsigned long long)c.seed, js(c.kind).c_str(), js(tr).c_str());
    fflush(st().out);
}

inline bool guarded(Ctx& c, const std::function<void(Ctx&)>& f, const char* what, const std::string& forcekey) {
    try { f(c); return true; }
    catch (Violation& v) { emit_violation(forcekey.empty() ? v.key : forcekey, v.msg, c, what); }
    catch (std::exception& e) { emit_violation(forcekey.empty() ? std::string("exception:") + c.kind : forcekey, std::string("unexpected exception: ") + e.what(), c, what); }
    catch (...) { emit_violation(forcekey.empty() ? std::string("exception:") + c.kind : forcekey, "unexpected exception of unknown type", c, what); }
    return false;
}

inline int main_(int argc, char** argv) {
    uint64_t seed = 1; long lo = 0, hi = 0; int budget = 60; bool th = false; int doprobes = -1;
    long probe_only = -1;
    std::string out = "/dev/stdout", cur = "/dev/null", arg;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--lo") lo = atol(argv[++i]);
        else if (a == "--hi") hi = atol(argv[++i]);
        else if (a == "--budget") budget = atoi(argv[++i]);
        else if (a == "--thorough") th = true;
        else if (a == "--probes") doprobes = atoi(argv[++i]);       // run probes from this index on
        else if (a == "--probe") probe_only = atol(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--cur") cur = argv[++i];
        else if (a == "--arg") arg = argv[++i];
    }
    st().out = fopen(out.c_str(), "a");
    st().cur = open(cur.c_str(), O_RDWR | O_CREAT, 0644);
    if (!st().out) { perror("out"); return 3; }
    signal(SIGPROF, on_alarm);
    mark("setup", 0);
    try { setup(arg); } catch (std::exception& e) { fprintf(stderr, "VF-SETUP: %s\n", e.what()); return 3; }
    if (probe_only >= 0) { doprobes = (int)probe_only; }
    if (doprobes >= 0) {
        for (size_t i = doprobes; i < probes().size(); ++i) {
            mark("probe", (long)i);
            fprintf(st().out, "{\"t\":\"probe\",\"i\":%zu,\"key\":%s}\n", i, js(probes()[i].key).c_str()); fflush(st().out);
            Ctx c(seed, (long)i, th); c.kind = "probe";
            arm(budget);
            guarded(c, probes()[i].f, "probe", probes()[i].key);
            arm(0);
            if (probe_only >= 0) break;
        }
    }
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::map<std::string, long> kinds;
    long n = 0;
    for (long i = lo; i < hi; ++i) {
        mark("case", i);
        Ctx c(seed, i, th);
        arm(budget);
        guarded(c, run_case, "case", "");
        arm(0);
        ++n;
        ++kinds[c.kind];
        if (c.nontrivial) {
            seen.insert(c.h);
            if (samples.size() < 3 && (kinds[c.kind] == 1 || samples.empty())) samples.push_back(c.kind + ": " + c.trace.substr(0, 500));
        }
    }
    mark("done", hi);
    std::string s = "{\"t\":\"done\",\"cases\":" + str(n) + ",\"distinct\":[";
    bool first = true;
    for (std::unordered_set<uint64_t>::iterator it = seen.begin(); it != seen.end(); ++it) { if (!first) s += ','; first = false; s += str(*it); }
    s += "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) { if (i) s += ','; s += js(samples[i]); }
    s += "],\"kinds\":{"; first = true;
    for (std::map<std::string, long>::iterator it = kinds.begin(); it != kinds.end(); ++it) { if (!first) s += ','; first = false; s += js(it->first) + ":" + str(it->second); }
    s += "},\"counters\":{"; first = true;
    for (std::map<std::string, long>::iterator it = Ctx::counters().begin(); it != Ctx::counters().end(); ++it) { if (!first) s += ','; first = false; s += js(it->first) + ":" + str(it->second); }
    s += "}}\n";
    fputs(s.c_str(), st().out);
    fclose(st().out);
    fflush(stdout);
    _exit(0);
}
} // namespace vf
#define VF_MAIN int main(int argc, char** argv) { return vf::main_(argc, argv); }
#define VF_NO_SETUP namespace vf { void setup(const std::string&) {} }
#endif

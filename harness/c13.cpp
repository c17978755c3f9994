// C13: key-value stores, string vectors, monotonic vectors and plain-text lexica against std::map / std::vector models,
// before and after saving and loading.
#include "h.hpp"
#include "key_value_store.hpp"
#include "string_vector.hpp"
#include "monotonic_vector.hpp"
#include "lexicon_base.hpp"
#include "exceptions.hpp"
namespace vf {
void setup(const std::string&) {}
struct Tmp { FILE* f; Tmp() : f(tmpfile()) { if (!f) throw std::runtime_error("tmpfile"); } ~Tmp() { fclose(f); } };
static std::string key(Rng& r) {
    std::string s;
    switch (r.range(0, 5)) {
        case 0: s = str(r.below(3000)); break;
        case 1: s = rand_word(r, 12); break;
        case 2: { s = rand_bytes(r, 12); std::replace(s.begin(), s.end(), '\0', 'z'); break; }
        case 3: s = std::string(r.range(1, 40), "ab\xff"[r.below(3)]); break;
        case 4: s = rand_word(r, 3) + "+" + rand_word(r, 3); break;
        default: for (int i = r.range(1, r.chance(3) ? 5000 : 60); i-- > 0;) s += "ab"[r.below(2)];
    }
    return s;
}
static std::string near(Rng& r, const std::string& k) {
    std::string s = k;
    switch (r.range(0, 4)) { case 0: s += 'x'; break; case 1: if (!s.empty()) s.erase(s.size() - 1); break; case 2: if (!s.empty()) s[r.below(s.size())] ^= 1; break; case 3: s = " " + s; break; default: s = key(r); }
    std::replace(s.begin(), s.end(), '\0', 'q');
    return s;
}
static std::string value(Rng& r) {
    switch (r.range(0, 5)) { case 0: return ""; case 1: return rand_word(r, 8); case 2: return rand_bytes(r, 20); case 3: return std::string(r.range(0, r.chance(5) ? 70000 : 400), 'v'); case 4: return std::string(1, '\0'); default: return rand_text(r, 20); }
}
static int count(Ctx& c) { Rng& r = c.r; int k = r.range(0, 20); return k == 0 ? r.range(0, 2) : k < 14 ? r.range(1, 20) : k < 20 ? r.range(20, 150) : r.range(150, c.thorough ? 20000 : 2000); }

static void kvs(Ctx& c) {
    Rng& r = c.r; c.kind = "key-value-store";
    int n = count(c); if (n == 1 && r.chance(50)) n = 2;
    std::map<std::string, std::string> m; KeyValueStore::Builder b; std::string ids;
    for (int i = 0; i < n; ++i) {
        std::string k = key(r), v = value(r); if (m.count(k)) continue;
        m[k] = v; b.add(k, v); ids += k + "\1" + v + "\2"; if (i < 25) c.note("add " + q(k, 60) + " = " + q(v, 60));
    }
    c.note("entries " + str(m.size())); c.ident(ids);
    KeyValueStore* s = b.build(); KeyValueStore loaded;
    struct D { KeyValueStore* s; ~D() { delete s; } } d = {s};
    std::vector<std::string> other; std::vector<std::string> ks;
    for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) ks.push_back(i->first);
    for (int i = 0; i < 60; ++i) { std::string k = ks.empty() || r.chance(30) ? key(r) : near(r, r.pick(ks)); if (!m.count(k)) other.push_back(k); }
    if (!m.count("")) other.push_back("");
    { Tmp t; s->save(t.f); long len = ftell(t.f); rewind(t.f); loaded.load(t.f); c.eq(ftell(t.f), len, "kvs-file", "bytes read back of the saved store"); }
    for (int p = 0; p < 2; ++p) {
        const KeyValueStore& x = p ? loaded : *s; const char* w = p ? "kvs-loaded" : "kvs";
        for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) {
            boost::optional<std::string> g = x.get(i->first);
            c.expect(!!g, w, "no value for the stored key " + q(i->first));
            c.eq(g.get(), i->second, w, "value for " + q(i->first, 60));
        }
        for (size_t i = 0; i < other.size(); ++i) { boost::optional<std::string> g = x.get(other[i]); c.expect(!g, w, "a value for " + q(other[i]) + ", which was not stored"); }
    }
    c.count("keys", (long)m.size()); c.nontrivial = m.size() >= 2;
}
template <class SV> static void strvec(Ctx& c) {
    Rng& r = c.r; c.kind = "string-vector";
    int n = count(c); std::vector<std::string> m; SV v; bool sortedInput = r.chance(40);
    for (int i = 0; i < n; ++i) m.push_back(r.chance(60) ? value(r) : rand_word(r, 4));
    if (sortedInput) { std::sort(m.begin(), m.end(), [](const std::string& a, const std::string& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (unsigned char)x < (unsigned char)y; }); }); m.erase(std::unique(m.begin(), m.end()), m.end()); }
    std::string ids; for (size_t i = 0; i < m.size(); ++i) { v.push_back(m[i]); ids += m[i] + "\1"; if (i < 25) c.note("push " + q(m[i], 60)); }
    c.note("elements " + str(m.size())); c.ident(ids);
    SV l, sw; { Tmp t; v.save(t.f); long len = ftell(t.f); rewind(t.f); l.load(t.f); c.eq(ftell(t.f), len, "strvec-file", "bytes read back"); }
    { Tmp t; v.save(t.f); rewind(t.f); SV y; y.load(t.f); sw.swap(y); c.eq((size_t)y.size(), (size_t)0, "strvec-swap", "size of what was empty"); }
    for (int p = 0; p < 3; ++p) {
        SV& x = p == 0 ? v : p == 1 ? l : sw; const char* w = p == 0 ? "strvec" : p == 1 ? "strvec-loaded" : "strvec-swapped";
        c.eq((size_t)x.size(), m.size(), w, "size");
        if (sortedInput) c.expect(x.is_sorted(), w, "a vector filled in order does not know it is sorted");
        for (size_t i = 0; i < m.size(); ++i) {
            c.eq(x[i].str(), m[i], w, "element " + str(i)); c.eq(x.at(i).str(), m[i], w, "at(" + str(i) + ")"); c.eq((size_t)x.length(i), m[i].size(), w, "length of " + str(i));
        }
        size_t i = 0;
        for (typename SV::iterator it = x.begin(); it != x.end(); ++it, ++i) { c.expect(i < m.size(), w, "iteration goes on past the end"); c.eq((*it).str(), m[i], w, "iterated element " + str(i)); }
        c.eq(i, m.size(), w, "number of iterated elements");
        for (int k = 0; k < 8 && !m.empty(); ++k) {
            size_t j = r.below(m.size()); std::string e = m[j]; size_t first = std::find(m.begin(), m.end(), e) - m.begin();
            c.eq((size_t)x.find(e), first, w, "find " + q(e, 60));
        }
    }
    c.nontrivial = m.size() >= 2;
}
template <class P, class L, P S> static void monovec(Ctx& c, const char* what) {
    Rng& r = c.r; c.kind = what;
    MonotonicVector<P, L, S> v; std::vector<P> m; int n = count(c); P x = 0; std::string ids;
    static const long steps[] = {0, 0, 1, 2, 100, 253, 254, 255, 256, 257, 510, 511, 65534, 65535, 65536, 65537, 131071, 1000000};
    int top = r.range(2, 18);
    for (int i = 0; i < n; ++i) { P d = (P)steps[r.below(top)]; if (sizeof(P) == 8 && r.chance(2)) d = (P)1 << 33; if ((P)(x + d) < x) break; x += d; m.push_back(x); v.push_back(x); ids += str(x) + ","; }
    c.note(std::string(what) + " " + ids.substr(0, 600)); c.ident(what + ids);
    MonotonicVector<P, L, S> l, sw; { Tmp t; v.save(t.f); long len = ftell(t.f); rewind(t.f); l.load(t.f); c.eq(ftell(t.f), len, "monovec-file", "bytes read back"); }
    { Tmp t; v.save(t.f); rewind(t.f); MonotonicVector<P, L, S> y; y.load(t.f); sw.swap(y); c.eq((size_t)y.size(), (size_t)0, "monovec-swap", "size of what was empty"); }
    for (int p = 0; p < 3; ++p) {
        const MonotonicVector<P, L, S>& y = p == 0 ? v : p == 1 ? l : sw; const char* w = p == 0 ? "monovec" : p == 1 ? "monovec-loaded" : "monovec-swapped";
        c.eq((size_t)y.size(), m.size(), w, "size");
        for (size_t i = 0; i < m.size(); ++i) { c.eq(y[i], m[i], w, "element " + str(i)); c.eq(y.at(i), m[i], w, "at " + str(i)); }
    }
    c.nontrivial = m.size() >= 2;
}
static std::string quoted(Rng& r, const std::string& s) {
    std::string o; for (size_t i = 0; i < s.size(); ++i) switch (s[i]) { case ' ': o += "_"; break; case '\t': o += "\\t"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '_': o += "\\_"; break; case '*': o += r.chance(50) ? "*" : "\\*"; break; case '\\': o += "\\\\"; break; default: o += s[i]; }
    return o;
}
static std::string field(Rng& r) {
    std::string s; int n = r.range(1, 5); static const char* x[] = {"a", "b", " ", "_", "\\", "\t", "\n", "*", ",", "=", "+", "ż", "Ł", "1", "-", "'"};
    for (int i = 0; i < n; ++i) s += x[r.below(16)];
    return s;
}
static void lexicon(Ctx& c) {
    Rng& r = c.r; c.kind = "plain-text-lexicon";
    std::string text; std::map<std::string, std::vector<std::string> > m; int n = count(c); if (n > 300) n = 300;
    std::string last; std::set<std::string> done;
    for (int i = 0; i < n; ++i) {
        static const char* junk[] = {"\n", "# comment a b\n", " \n", "\t\n", "  # x y\n"};
        if (r.chance(10)) text += junk[r.below(5)];
        std::string k = !last.empty() && r.chance(35) ? last : field(r);
        if (k != last && done.count(k) && r.chance(60)) k += str(i);
        done.insert(k); last = k;
        std::string rec; int nf = r.range(1, 3); std::string line = r.chance(15) ? (r.chance(50) ? " " : "\t ") : "";
        line += quoted(r, k);
        for (int f = 0; f < nf; ++f) { std::string v = field(r); static const char* sep[] = {"\t", " ", "  ", "\t\t ", " \t"}; line += sep[r.below(5)] + quoted(r, v); rec += (f ? "\t" : "") + v; }
        if (r.chance(10)) line += " "; if (r.chance(10)) line += "# note";
        if (i + 1 < n || r.chance(80)) line += "\n";
        text += line; m[k].push_back(rec);
    }
    c.note(text); 
    char fn[] = "/tmp/vfc13XXXXXX"; int fd = mkstemp(fn); if (fd < 0) throw std::runtime_error("mkstemp");
    struct U { const char* f; ~U() { unlink(f); } } u = {fn};
    if (write(fd, text.data(), text.size()) != (ssize_t)text.size()) throw std::runtime_error("write"); close(fd);
    LexiconBase lb, ll; lb.readPlainText(fn);
    lb.saveBinary(fn); ll.loadBinary(fn);
    for (int p = 0; p < 2; ++p) {
        LexiconBase& x = p ? ll : lb; const char* w = p ? "lexicon-loaded" : "lexicon";
        for (std::map<std::string, std::vector<std::string> >::iterator i = m.begin(); i != m.end(); ++i) {
            std::vector<std::string> g = x.getRecords(i->first); std::string a, b;
            for (size_t z = 0; z < g.size(); ++z) a += g[z] + "|"; for (size_t z = 0; z < i->second.size(); ++z) b += i->second[z] + "|";
            c.eq(a, b, w, "records of " + q(i->first));
        }
        for (int z = 0; z < 10; ++z) { std::string k = m.empty() || r.chance(50) ? field(r) : near(r, m.begin()->first); if (!m.count(k)) c.expect(x.getRecords(k).empty(), w, "records for " + q(k) + ", which is not there"); }
    }
    c.nontrivial = m.size() >= 2;
}
void run_case(Ctx& c) {
    switch (c.r.range(0, 9)) {
        case 0: case 1: case 2: kvs(c); break;
        case 3: case 4: strvec<StringVector<> >(c); break;
        case 5: strvec<LongStringVector>(c); break;
        case 6: monovec<unsigned, unsigned short, 20>(c, "monotonic-vector-32"); break;
        case 7: if (c.r.chance(50)) monovec<size_t, unsigned char, 25>(c, "monotonic-vector-64"); else monovec<size_t, unsigned short, 3>(c, "monotonic-vector-step3"); break;
        default: lexicon(c);
    }
}
}
VF_MAIN

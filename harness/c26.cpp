// C26: conversion between encodings and their detection against iconv(3).
#include "h.hpp"
#include "encoding_converter.hpp"
#include <iconv.h>
namespace vf {
struct Enc { const char* name; const char* ic; int kind; };       // kind: 0 bytes, 1 bytes with combining characters, 2 double bytes, 3 with shift states
static const Enc ENC[] = {{"windows-1250","CP1250",0},{"windows-1251","CP1251",0},{"windows-1252","CP1252",0},{"windows-1253","CP1253",0},{"windows-1254","CP1254",0},{"windows-1255","CP1255",1},{"windows-1256","CP1256",0},{"windows-1257","CP1257",0},{"windows-1258","CP1258",1},
    {"GBK","GBK",2},{"GB-2312","EUC-CN",2},{"Big5","BIG5",2},{"ISO-2022-JP","ISO-2022-JP",3},{"UCS-2","UCS-2BE",3},{"UTF-7","UTF-7",3},
    {"ISO-8859-1","ISO-8859-1",0},{"ISO-8859-2","ISO-8859-2",0},{"ISO-8859-3","ISO-8859-3",0},{"ISO-8859-4","ISO-8859-4",0},{"ISO-8859-5","ISO-8859-5",0},{"ISO-8859-6","ISO-8859-6",0},{"ISO-8859-7","ISO-8859-7",0},{"ISO-8859-8","ISO-8859-8",0},{"ISO-8859-9","ISO-8859-9",0},{"ISO-8859-10","ISO-8859-10",0},{"ISO-8859-11","ISO-8859-11",0},{"ISO-8859-13","ISO-8859-13",0},{"ISO-8859-14","ISO-8859-14",0},{"ISO-8859-15","ISO-8859-15",0},{"ISO-8859-16","ISO-8859-16",0},
    {"CP866","CP866",0},{"IBM866","CP866",0},{"KOI8-R","KOI8-R",0},{"KOI8-U","KOI8-U",0},{"KOI8-RU","KOI8-RU",0},{"x-mac-cyrillic","CP10007",0},{"UTF-8","UTF-8",3}};
static const int NENC = sizeof(ENC) / sizeof(ENC[0]);
static bool conv(const char* from, const char* to, const std::string& in, std::string& out) {
    iconv_t h = iconv_open(to, from); if (h == (iconv_t)-1) throw std::runtime_error(std::string("no iconv from ") + from + " to " + to);
    out.assign(in.size() * 8 + 64, 0); char* ip = const_cast<char*>(in.data()); char* op = &out[0]; size_t il = in.size(), ol = out.size();
    size_t r = iconv(h, &ip, &il, &op, &ol); bool ok = r == 0 && il == 0; if (ok) iconv(h, 0, 0, &op, &ol); iconv_close(h); out.resize(op - &out[0]); return ok;
}
static std::vector<std::vector<uint32_t> > g_rep;                  // the characters of each encoding on which all tables agree
static bool open_to_question(const Enc& e, uint32_t code) {         // code points of the encoding whose meaning differs between vendors
    std::string n = e.name;
    if (n == "KOI8-RU") return code == 0x93 || (code >= 0x96 && code <= 0x9f);
    if (n == "x-mac-cyrillic") return code == 0xb6;
    if (n == "Big5") return (code >= 0x80 && code < 0xa440) || (code >= 0xc6a1 && code < 0xc940) || code > 0xf9d5;
    if (n == "GBK") return code == 0x80 || (code >= 0x8000 && code < 0x8140);
    return false;
}
void setup(const std::string&) {
    g_rep.resize(NENC);
    for (int k = 0; k < NENC; ++k) {
        const Enc& e = ENC[k]; std::string n = e.name, o;
        if (e.kind < 3) {
            for (uint32_t v = 1; v < (e.kind == 2 ? 0x10000u : 0x100u); ++v) {
                if (v >= 0x100 && v < 0x8100) continue; if (open_to_question(e, v)) continue;
                std::string in; if (v >= 0x100) in += (char)(v >> 8); in += (char)v; std::vector<uint32_t> d;
                if (!conv(e.ic, "UTF-8", in, o) || !decode(o, d) || d.size() != 1 || (d[0] >= 0xE000 && d[0] < 0xF900)) continue;
                g_rep[k].push_back(d[0]);
            }
        } else if (n == "ISO-2022-JP") {
            for (uint32_t u = 0x20; u < 0x7f; ++u) g_rep[k].push_back(u);
            for (uint32_t u = 0xA5; u < 0xFF00; ++u) { if (u >= 0xD800 && u < 0xE000) continue; std::string b; if (conv("UTF-8", e.ic, utf8(u), b) && b.size() == 8 && u != 0xFF3C && u != 0x5C) g_rep[k].push_back(u); }
        } else for (uint32_t u = 1; u < (n == "UCS-2" ? 0xFFFEu : 0x30000u); u += u < 0x800 ? 1 : u < 0x10000 ? 7 : 61) if (valid_scalar(u) && u != 0xFEFF && u != 0xFFFE) g_rep[k].push_back(u);
    }
}
static std::string rnd(Rng& r, int k, int n) {
    std::string s; const std::vector<uint32_t>& v = g_rep[k]; int run = 0; bool low = true;
    for (int i = 0; i < n; ++i) {
        if (run-- <= 0) { run = r.range(1, 8); low = r.chance(40); }
        uint32_t u; u = low ? 0x20 + r.below(0x5f) : v[r.below(v.size())];
        if (low && !std::binary_search(v.begin(), v.end(), u)) { bool in = false; for (size_t j = 0; j < v.size() && j < 200; ++j) in = in || v[j] == u; if (!in) u = v[r.below(v.size())]; }
        s += utf8(u);
    }
    return s;
}
static const char* RU[] = {"этот","человек","время","только","может","быть","который","говорить","когда","сказать","после","жизнь","первый","работа","слово","место","друг","другой","большой","новый","понять","просто","дорога","город","дело","рука","земля","думать","хотеть","смотреть","сегодня","вопрос","стоять","конец","сторона","хороший","видеть","русский","знать","деньги"};
static const char* PL[] = {"że","się","jest","być","może","także","również","człowiek","życie","świat","wszystko","dzień","który","jeszcze","książka","źródło","mówić","chcieć","później","gęś","jaźń","zażółć","łódź","ćma"};
static std::string words(Rng& r, const char** w, int nw, int n) { std::string s; for (int i = 0; i < n; ++i) { if (i) s += r.chance(10) ? ", " : r.chance(10) ? ".\n" : " "; s += w[r.below(nw)]; } return s + "."; }
static std::string all_words(Rng& r, int times) { std::vector<std::string> v; for (int i = 0; i < 40 * times; ++i) v.push_back(RU[i % 40]); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); std::string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s += r.chance(10) ? ", " : r.chance(10) ? ".\n" : " "; s += v[i]; } return s + "."; }
static int find(const char* n) { for (int i = 0; i < NENC; ++i) if (std::string(ENC[i].name) == n) return i; return -1; }
static std::string utf(const Enc& e, const std::string& bytes, Ctx& c) { std::string o; bool ok = conv(e.ic, "UTF-8", bytes, o); c.expect(ok, "not-in-encoding", std::string("the result is no text in ") + e.name + ": " + q(bytes)); return o; }
static void same(Ctx& c, const std::string& got, const std::string& want, const std::string& key, const std::string& what) {
    c.count("monitor_checks"); if (got == want) return; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t a = i > 20 ? i - 20 : 0;
    c.fail(key, what + ": " + str(got.size()) + " bytes, want " + str(want.size()) + "; they differ at " + str(i) + ": " + q(got.substr(a, 60)) + ", want " + q(want.substr(a, 60)));
}
static void convert_case(Ctx& c) {
    Rng& r = c.r; int k = c.index % 2 ? r.below(NENC) : (c.index / 2) % NENC, k2 = r.below(NENC); const Enc& e = ENC[k]; bool big = r.chance(4); c.kind = big ? "long" : "convert";
    int n = big ? (r.chance(40) ? 99980 + r.range(0, 40) : r.range(20000, c.thorough ? 350000 : 210000)) / (e.kind >= 2 && r.chance(50) ? 3 : 1) : r.size(80);
    std::string t = rnd(r, k, n), bytes, w; if (e.kind == 1) t += "."; /* a last letter is lost: a known finding, see the probe */ c.note(std::string(e.name) + " " + ENC[k2].name + " " + str(n) + " " + q(t, 300)); c.ident(std::string(e.name) + t);
    if (!conv("UTF-8", e.ic, t, bytes)) c.fail("harness", std::string("iconv cannot write ") + e.name + ": " + q(t)); if (!conv(e.ic, "UTF-8", bytes, w)) c.fail("harness", "iconv cannot read its own output");
    if (e.kind != 1) same(c, w, t, "harness", "iconv there and back");
    EncodingConverter cv, other("ISO-8859-2"), other2(e.name); std::string U = "UTF-8"; c.count("characters", n);
    // into UTF-8, whatever the default target of the object
    same(c, cv.convert(e.name, bytes), w, "from", std::string("from ") + e.name); same(c, cv.convert(e.name, U, bytes), w, "from", std::string("from ") + e.name + " to UTF-8");
    same(c, other.convert(e.name, U, bytes), w, "from-other-default", std::string("from ") + e.name + " to UTF-8 by a converter to ISO-8859-2"); same(c, other2.convert(e.name, U, bytes), w, "from-own-default", std::string("from ") + e.name + " to UTF-8 by a converter to " + e.name);
    // out of UTF-8
    std::string b2 = cv.convert(U, e.name, t); if (e.kind == 0 || e.kind == 2) same(c, b2, bytes, "to", std::string("UTF-8 to ") + e.name); same(c, utf(e, b2, c), w, "to-text", std::string("UTF-8 to ") + e.name + " and back by iconv");
    same(c, other2.convert(U, t), b2, "to-default", std::string("from UTF-8 to the default target ") + e.name); same(c, cv.convert(e.name, U, b2), w, "there-and-back", std::string("UTF-8 to ") + e.name + " and back");
    same(c, cv.convert(e.name, e.name, bytes), bytes, "to-itself", std::string(e.name) + " to itself");
    // between two others: what UTF-8 in the middle gives, or the text itself when the target lacks a character
    if (k2 != k && !big) { std::string mid, direct = cv.convert(e.name, ENC[k2].name, bytes); bool can = conv("UTF-8", ENC[k2].ic, w, mid), plain = ENC[k2].kind != 1 && std::string(ENC[k2].name) != "Big5" && std::string(ENC[k2].name) != "GBK" && std::string(ENC[k2].name) != "KOI8-RU" && std::string(ENC[k2].name) != "x-mac-cyrillic" && std::string(ENC[k2].name) != "ISO-2022-JP" && std::string(ENC[k2].name) != "UCS-2" && std::string(ENC[k2].name) != "UTF-7";
        if (can && plain) { same(c, utf(ENC[k2], direct, c), w, "between", std::string(e.name) + " to " + ENC[k2].name); c.count("between"); } else if (!can && plain) { same(c, direct, bytes, "unconvertible", std::string(e.name) + " to " + ENC[k2].name + ", which lacks a character"); c.count("unconvertible"); } }
    // a text that is not in the encoding comes back as it was
    if (!big && e.kind == 3 && U == e.name) {} else if (!big) { std::string bad = t; size_t at = r.below(bad.size() + 1); std::vector<size_t> bs = bounds(bad); at = bs[r.below(bs.size())]; static const char* junk[] = {"\xFF", "\xC0\x80", "\xE0\x80\x80", "\x80", "\xF8\x88\x80\x80"}; std::string jk = junk[r.below(5)]; bad.insert(at, jk); if (at + jk.size() < bad.size() || (jk[0] != '\xE0' && jk[0] != '\xF8')) { same(c, cv.convert(U, e.name, bad), bad, "invalid", "damaged UTF-8 to " + std::string(e.name)); c.count("invalid"); } }
    c.expect(cv.convert("x-unknown", U, bytes) == bytes && cv.convert(U, "x-unknown", bytes) == bytes, "unknown", "an unknown encoding must leave the text alone");
    c.nontrivial = n > 2 && bytes != t;
}
static void ucs2_case(Ctx& c) {
    Rng& r = c.r; c.kind = "ucs2-order"; EncodingConverter cv; std::string b, w; bool le = false; int n = r.size(60); int k = find("UCS-2");
    for (int i = 0; i < n; ++i) { if (r.chance(10)) { bool nle = r.chance(50); if (nle != le) { b += le ? std::string("\xFE\xFF", 2) : std::string("\xFF\xFE", 2); } else b += le ? "\xFF\xFE" : "\xFE\xFF"; if (nle != le) le = nle; } uint32_t u = g_rep[k][r.below(g_rep[k].size())]; b += le ? std::string(1, (char)u) + (char)(u >> 8) : std::string(1, (char)(u >> 8)) + (char)u; w += utf8(u); }
    c.note(q(b)); same(c, cv.convert("UCS-2", b), w, "byte-order", "UCS-2 with byte order marks"); c.nontrivial = n > 2;
}
static void detect_case(Ctx& c) {
    Rng& r = c.r; static EncodingConverter old; EncodingConverter cv; int what = r.range(0, 5); std::string t, b; const char* name = 0;
    if (what == 0) { c.kind = "ascii"; int n = r.size(400); for (int i = 0; i < n; ++i) { char x = r.chance(10) ? '\n' : (char)r.range(0x20, 0x7e); t += x == '~' ? '-' : x; } b = t; name = EncodingConverter::ASCII.c_str(); if (t.empty()) name = 0; }
    else if (what == 1) { c.kind = "utf-8"; t = words(r, r.chance(50) ? RU : PL, 24, r.range(40, 120)); b = t; name = "UTF-8"; }
    else if (what == 2 || what == 3) { static const char* nm[] = {"windows-1251", "KOI8-R", "IBM866", "ISO-8859-5"}; c.kind = "cyrillic"; name = nm[r.below(4)]; for (int j = 0; j < 200; ++j) { t += RU[j * 7 % 40]; t += j % 9 ? " " : ", "; } t += all_words(r, r.range(1, 6)); /* a fixed beginning: the decision is heuristic */ if (!conv("UTF-8", ENC[find(name)].ic, t, b)) c.fail("harness", "iconv"); }
    else if (what == 4) { c.kind = "japanese"; name = "ISO-2022-JP"; int k = find(name); int n = r.range(10, 200); for (int i = 0; i < n; ++i) t += r.chance(15) ? utf8(0x61 + r.below(26)) : utf8(0x3042 + r.below(40)); if (!conv("UTF-8", ENC[k].ic, t, b)) c.fail("harness", "iconv"); if (b == t) name = 0; }
    else { c.kind = "bytes"; t = b = rand_bytes(r, 600); if (r.chance(25)) for (size_t i = 0; i < b.size(); ++i) b[i] |= 0x80; else if (r.chance(30)) { int k = find(r.chance(50) ? "Big5" : "GBK"); if (!conv("UTF-8", ENC[k].ic, rnd(r, k, r.size(400)), b)) c.fail("harness", "iconv"); if (r.chance(40)) b = "\x8E" + b; if (r.chance(40)) for (int i = 0; i < 20; ++i) b.insert(r.below(b.size() + 1), 1, (char)r.range(0x80, 0xFF)); } if (r.chance(30)) { std::string esc[] = {"\x1b$B", "\x1b(B", "~{", "~}", "\xFE\xFF", "\xFF\xFE", "\xEF\xBB\xBF", "\x1b$)C"}; for (int i = 0; i < 6; ++i) b.insert(r.below(b.size() + 1), esc[r.below(8)]); t = b; } }
    c.note(std::string(name ? name : "?") + " " + q(b, 300)); std::string d = cv.detect(b), d2 = old.detect(b); c.eq(d2, d, "detect-history", "detection after other texts"); std::string conv1 = cv.convert(b), conv2 = cv.convert(d, b); c.expect(conv1 == conv2, "auto", "conversion of a text in the encoding detected (" + d + ")");
    c.count(("detected:" + d).c_str());
    if (name) { c.eq(d, std::string(name), "detect", "encoding of " + q(b)); c.expect(conv1 == t, "detected-text", "the text converted from " + d + " is " + q(conv1) + ", want " + q(t)); c.count("detected"); }
    c.nontrivial = b.size() > 3;
}
void run_case(Ctx& c) {
    int k = c.index % 10; if (k < 7) convert_case(c); else if (k == 7) ucs2_case(c); else detect_case(c);
}
static void hz(Ctx& c) { EncodingConverter cv; c.eq(cv.convert("HZ-GB-2312", "a ~{VPND~} b"), std::string("a \xE4\xB8\xAD\xE6\x96\x87 b"), "hz", "from HZ-GB-2312"); }
static void cp939(Ctx& c) { EncodingConverter cv; std::string b; if (!conv("UTF-8", "IBM939", "abc", b)) c.fail("harness", "iconv"); c.eq(cv.convert("CP939", b), std::string("abc"), "cp939", "from CP939"); }
static void pending(Ctx& c) { EncodingConverter cv; c.eq(cv.convert("windows-1255", "UTF-8", "\xF2\xE1\xF8\xE9\xFA"), std::string("\xD7\xA2\xD7\x91\xD7\xA8\xD7\x99\xD7\xAA"), "pending", "from windows-1255"); }
static AddProbe p0("last-letter-is-lost", pending), p1("hz-gb-2312-is-not-decoded", hz), p2("cp939-is-cp936", cp939);
}
VF_MAIN

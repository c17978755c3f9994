// C08: what the text and UTT readers put into the lattice, against the file's own description.
#include "h.hpp"
#include "lattice.hpp"
#include "txt_lattice_reader.hpp"
#include "utt_lattice_reader.hpp"
#include "stream_helpers.hpp"
#include <boost/scoped_ptr.hpp>
#include <fstream>
namespace vf {
static std::string g_file;
void setup(const std::string&) { const char* t = getenv("VF_TMP"); g_file = std::string(t ? t : "/tmp") + "/c08.txt"; }
struct RE { int f, t; std::string cat, text, tags; std::map<std::string, std::string> av; std::vector<std::pair<int, int> > kids; };
static std::string show(const RE& e) { std::string s = str(e.f) + "-" + str(e.t) + " " + q(e.cat) + " " + q(e.text) + " [" + e.tags + "]"; for (std::map<std::string, std::string>::const_iterator i = e.av.begin(); i != e.av.end(); ++i) s += " " + i->first + "=" + q(i->second); s += " of"; for (size_t i = 0; i < e.kids.size(); ++i) s += " " + str(e.kids[i].first) + "-" + str(e.kids[i].second); return s + "\n"; }
static std::multiset<std::string> dump(Lattice& lat) {        // everything but the symbol edges
    std::multiset<std::string> o; Lattice::EdgesSortedBySourceIterator it = lat.edgesSortedBySource(lat.getLayerTagManager().anyTag());
    while (it.hasNext()) {
        Lattice::EdgeDescriptor d = it.next(); RE e; AnnotationItem a = lat.getEdgeAnnotationItem(d); std::list<std::string> tn = lat.getLayerTagManager().getTagNames(lat.getEdgeLayerTags(d)); std::set<std::string> ts(tn.begin(), tn.end());
        for (std::set<std::string>::iterator i = ts.begin(); i != ts.end(); ++i) e.tags += (e.tags.empty() ? "" : ",") + *i; if (e.tags == "symbol") continue;
        e.f = lat.getEdgeSource(d); e.t = lat.getEdgeTarget(d); e.cat = a.getCategory(); e.text = a.getText(); e.av = lat.getAnnotationItemManager().getAVMap(a);
        std::list<Lattice::Partition> ps = lat.getEdgePartitions(d); if (ps.size()) { Lattice::EdgeSequence::Iterator k(lat, ps.front().getSequence()); while (k.hasNext()) { Lattice::EdgeDescriptor x = k.next(); e.kids.push_back(std::make_pair(lat.getEdgeSource(x), lat.getEdgeTarget(x))); } }
        o.insert(show(e));
    }
    return o;
}
static std::string all(const std::multiset<std::string>& s) { std::string o; for (std::multiset<std::string>::const_iterator i = s.begin(); i != s.end(); ++i) o += *i; return o; }
static void symbols(Ctx& c, Lattice& lat, const std::string& text) {
    std::vector<size_t> b = bounds(text); LayerTagMask m = lat.getSymbolMask();
    for (size_t i = 0; i + 1 < b.size(); ++i) { Lattice::InOutEdgesIterator it = lat.outEdges((int)b[i], m); c.expect(it.hasNext(), "symbols", "no character edge at " + str(b[i])); Lattice::EdgeDescriptor d = it.next(); c.eq(lat.getEdgeTarget(d), (int)b[i + 1], "symbols", "end of the character edge at " + str(b[i])); c.eq(lat.getAnnotationText(d), text.substr(b[i], b[i + 1] - b[i]), "symbols", "text of the character edge at " + str(b[i])); }
    c.count("characters_checked", (long)b.size() - 1);
}
static std::string ptext(Rng& r, int n) { std::string s; int k = r.size(n); for (int i = 0; i < k; ++i) { uint32_t u = rand_char(r); s += r.chance(12) ? "\n" : utf8(u); if (r.chance(4)) s += "\n\n"; if (r.chance(3)) s += "\r\n"; } return s; }
template <class S> static void read(Ctx& c, S& reader, const std::string& in, Lattice& lat, const char* how) {
    if (c.r.chance(70)) { std::istringstream is(in); std::istream& si = is; static_cast<LatticeReader<std::istream>&>(reader).readIntoLattice(si, lat); }
    else { { std::ofstream o(g_file.c_str(), std::ios::binary); o << in; } c.note(std::string(how) + " from a file"); reader.readIntoLattice(g_file, lat); unlink(g_file.c_str()); }
}
static void txt(Ctx& c) {
    Rng& r = c.r; c.kind = "txt"; bool whole = r.chance(40); std::string in = ptext(r, c.thorough ? 200 : 60); AnnotationItemManager aim; std::string pre = r.chance(20) ? rand_text(r, 8) : std::string(); Lattice lat(aim, pre);
    c.note(std::string(whole ? "whole " : "lines ") + q(in, 3000) + (pre.empty() ? "" : " appended to " + q(pre)));
    TxtLatticeReader rd(whole); c.eq(rd.getFormatName(), "TXT", "format", "format name"); read(c, rd, in, lat, "txt");
    std::string want = in; if (want.size() && want[want.size() - 1] != '\n') want += "\n";
    c.eq(lat.getAllText(), pre + want, "txt-text", "text of the lattice"); std::multiset<std::string> w; int base = (int)pre.size();
    if (whole) { if (want.size()) { RE e; e.f = base; e.t = base + (int)want.size(); e.cat = "FRAG"; e.text = want; e.tags = "frag,txt-reader"; w.insert(show(e)); } }
    else { size_t i = 0; while (i < want.size()) { size_t j = want.find('\n', i); if (j > i) { RE e; e.f = base + (int)i; e.t = base + (int)j; e.cat = "FRAG"; e.text = want.substr(i, j - i); e.tags = "frag,txt-reader"; w.insert(show(e)); c.count("lines"); } i = j + 1; } }
    c.eq(all(dump(lat)), all(w), "txt-frags", "the fragments marked"); if (whole && pre.empty()) symbols(c, lat, want);
    c.nontrivial = in.size() >= 2;
}
static std::string esc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) switch (s[i]) { case ' ': o += "_"; break; case '\n': o += "\\n"; break; case '\t': o += "\\t"; break; case '\r': o += "\\r"; break; case '_': o += "\\_"; break; case '*': o += "\\*"; break; case '\\': o += "\\\\"; break; default: o += s[i]; } return o; }
static std::string sp(Rng& r) { return r.chance(80) ? " " : r.chance(50) ? "  " : "   "; }
static std::string num(Rng& r, int n) { char b[32]; snprintf(b, sizeof b, r.chance(60) ? "%04d" : "%d", n); return b; }
static void utt(Ctx& c) {
    Rng& r = c.r; c.kind = "utt"; std::vector<std::string> ch; std::string file; std::set<std::string> want; int end = -1, toks = 0; std::vector<int> off(1, 0);
    struct Tok { int p, n; }; std::vector<Tok> sent; std::map<int, int> first; std::string sentForm; bool inSent = false, alts = false, everInside = false; int bos = 0; int n = r.range(1, c.thorough ? 25 : 12), at = 0;
    std::vector<RE> pend;
    struct F { static std::string head(Rng& r, int p, int len, int end, bool mayOmitLen) { std::string s; if (r.chance(10)) s += " "; if (!(p == end && r.chance(25))) { s += num(r, p) + sp(r); if (!(mayOmitLen && r.chance(25))) s += num(r, len) + sp(r); } return s; } };
    for (int i = 0; i < n; ++i) {
        if (!inSent && r.chance(25)) { inSent = true; alts = false; bos = at; sentForm.clear(); sent.clear(); file += F::head(r, at, 0, end, true) + "BOS" + sp(r) + "*" + (r.chance(10) ? " x:y" : "") + "\n"; end = at; continue; }
        if (inSent && r.chance(20)) {
            if (at > bos) { file += F::head(r, at, 0, end, true) + "EOS" + sp(r) + "*\n"; end = at; RE e; e.f = off[bos]; e.t = off[at]; e.cat = "sen"; e.tags = "sentence"; e.text = alts ? "?" : sentForm; for (size_t k = 0; k < sent.size(); ++k) e.kids.push_back(std::make_pair(off[sent[k].p], off[sent[k].p + sent[k].n])); e.av["#"] = alts ? "alts" : ""; pend.push_back(e); inSent = false; continue; }
        }
        // a segment: at the end of what is known, or an alternative over known text
        int p = at, len; std::string form; bool alt = toks && r.chance(15) && (int)ch.size() > 0;
        if (alt) { if (inSent) { if (sent.empty()) continue; const Tok& t = sent[r.below(sent.size())]; p = t.p; len = r.range(1, t.n); } else { if (first.empty()) continue; std::map<int, int>::iterator z = first.begin(); std::advance(z, r.below(first.size())); p = z->first; len = r.chance(70) ? r.range(1, z->second) : r.range(1, (int)ch.size() - p); } alts = true; }
        else len = r.chance(70) ? r.range(1, 4) : r.range(1, 9);
        for (int k = p; k < p + len; ++k) { if (k == (int)ch.size()) { std::string x; if (r.chance(55)) x = std::string(1, (char)('a' + r.below(26))); else if (r.chance(60)) { static const char* z[] = {"ż", "ó", "ł", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "é"}; x = z[r.below(6)]; } else { static const char* z[] = {" ", "_", "*", "\\", "\n", "\t", "\r", ".", ":", "-", "'", ",", "1"}; x = z[r.below(13)]; } ch.push_back(x); off.push_back(off.back() + (int)x.size()); } form += ch[k]; }
        bool unknown = false; if (!alt && r.chance(6)) { unknown = true; for (int k = p; k < p + len; ++k) ch[k] = " "; off.resize(p + 1); for (int k = p; k < p + len; ++k) off.push_back(off.back() + 1); form = ""; }
        static const char* ty[] = {"W", "S", "P", "N", "B", "WORD", "żółw"}; std::string line = F::head(r, p, len, end, !unknown);
        if (unknown) { line = num(r, p) + " " + num(r, len) + " "; }
        line += std::string(ty[r.below(7)]) + sp(r) + (unknown ? std::string("*") : esc(form)); std::map<std::string, std::string> av; int na = r.chance(40) ? r.range(1, 3) : 0;
        for (int k = 0; k < na; ++k) { static const char* an[] = {"lem", "gph", "x", "pos"}; static const char* vn[] = {"pies", "N/GcNs", "a:b", "kot,N", "ż", "1"}; std::string a = an[r.below(4)], v = vn[r.below(6)]; av[a] = v; line += sp(r) + a + ":" + v; }
        file += line + "\n"; end = p + len; ++toks; if (!alt) { at = p + len; if (inSent) { Tok t = {p, len}; sent.push_back(t); } } else if (end > at) at = end;
        if (inSent) sentForm += form; if (!first.count(p)) first[p] = len; (void)everInside;
        RE e; e.f = p; e.t = p + len; e.cat = "'" + form + "'"; e.text = form; e.tags = "token"; e.av = av; e.av["#"] = "tok"; pend.push_back(e);
        if (r.chance(5)) file += r.chance(50) ? "\n" : "   \n";
    }
    std::string text; for (size_t i = 0; i < ch.size(); ++i) text += ch[i];
    c.note(q(file, 4000)); c.note("text " + q(text, 2000));
    AnnotationItemManager aim; Lattice lat(aim, ""); UTTLatticeReader rd; read(c, rd, file, lat, "utt");
    c.eq(lat.getAllText(), text, "utt-text", "text of the lattice"); if (!ch.empty()) symbols(c, lat, text);
    bool loose = false; for (size_t i = 0; i < pend.size(); ++i) { RE e = pend[i]; std::string k = e.av["#"]; e.av.erase("#"); if (k == "tok") { int p = e.f, m = e.t; e.f = off[p]; e.t = off[m]; for (int z = p; z < m; ++z) e.kids.push_back(std::make_pair(off[z], off[z + 1])); } else if (k == "alts") { loose = true; continue; } want.insert(show(e)); }
    std::multiset<std::string> got = dump(lat); std::set<std::string> gs(got.begin(), got.end()); c.eq(got.size(), gs.size(), "utt-twice", "edges given twice");
    if (loose) { for (std::set<std::string>::iterator i = gs.begin(); i != gs.end();) { if (i->find(" \"sen\" ") != std::string::npos && !want.count(*i)) gs.erase(i++); else ++i; } }
    std::string a, b; for (std::set<std::string>::iterator i = gs.begin(); i != gs.end(); ++i) a += *i; for (std::set<std::string>::iterator i = want.begin(); i != want.end(); ++i) b += *i;
    c.eq(a, b, "utt-edges", "the edges read"); c.count("segments_read", toks); c.nontrivial = toks >= 2;
}
static void streams(Ctx& c) {
    Rng& r = c.r; c.kind = "stream"; std::string in; int n = r.size(60); if (r.chance(20)) n = r.range(1000, c.thorough ? 60000 : 6000); for (int i = 0; i < n; ++i) in += (char)(r.chance(80) ? 'a' + r.below(26) : r.below(256)); c.note(q(in, 100) + " " + str(in.size()));
    std::istringstream is(in); int k = r.range(1, 5);
    for (int i = 0; i < k; ++i) {
        if (r.chance(50)) { int z = r.range(1, (int)in.size() + 10); c.eq(getStartingDataWithoutTouchingStream(is, z), in.substr(0, z), "peek", "the first " + str(z) + " bytes"); }
        else c.eq(getDataWithoutTouchingIStream(is), in, "peek-all", "all bytes");
    }
    std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); c.eq(rest, in, "untouched", "what is left in the stream"); c.nontrivial = in.size() >= 2;
}
void run_case(Ctx& c) { int k = c.r.range(0, 9); if (k < 3) txt(c); else if (k < 9) utt(c); else streams(c); }
}
VF_MAIN

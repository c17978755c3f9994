// C27: converters, the mapper and the simple normalizer against what their options and rules say, on two copies of one lattice.
#include "annot.hpp"
#include "layer_tag_manager.hpp"
#include <fstream>
using namespace vf;
namespace {
typedef Lattice::EdgeDescriptor E;
typedef std::pair<std::string, std::string> SP;
typedef std::vector<SP> Vals;
struct Side { AnnotationItemManager aim; Lattice l; Side() : l(aim) {} LayerTagManager& t() { return l.getLayerTagManager(); } };
const char* WORDS[] = {"dom", "kot", "mgr", "Ala", "się", "b1", "prof.", "ż", "a,b", "żółw"};
const char* CATS[] = {"subst", "verb", "adj", "conj", "T", "word"};
const char* AV[][2] = {{"number", "sg"}, {"number", "pl"}, {"case", "nom"}, {"case", "gen"}, {"gender", "m1"}, {"gender", "f"}, {"n", "1"}, {"n", "2"}};
const char* CONDS[] = {"*", "subst", "verb|adj", "number=sg", "subst&number=sg", "subst&case=gen|verb", "conj&case=nom&number=pl|adj|n=1", "n=2", "number", "subst&"};
template <size_t N> std::string any(Rng& r, const char* (&a)[N]) { return a[r.below(N)]; }
std::list<std::string> tl(const std::string& s) { std::list<std::string> o; for (size_t i = 0; i <= s.size();) { size_t e = s.find(',', i); if (e == std::string::npos) e = s.size(); o.push_back(s.substr(i, e - i)); i = e + 1; } return o; }
std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> o; for (size_t i = 0; i <= s.size();) { size_t e = s.find(c, i); if (e == std::string::npos) e = s.size(); o.push_back(s.substr(i, e - i)); i = e + 1; } return o; }
E put(Side& s, int a, int b, const AnnotationItem& it, const std::string& tags, const std::vector<E>& parts) {
    Lattice::EdgeSequence::Builder sb(s.l); for (size_t i = 0; i < parts.size(); ++i) sb.addEdge(parts[i]);
    return s.l.addEdge(a, b, it, s.t().createTagCollection(tl(tags)), sb.build());
}
void vals(Rng& r, Side& s, AnnotationItem& it, int p) { for (size_t i = 0; i < sizeof AV / sizeof *AV; ++i) if (r.chance(p)) s.aim.setValue(it, AV[i][0], std::string(AV[i][1])); }
AnnotationItem alt(Rng& r, Side& s, const std::string& w) {
    AnnotationItem it(r.chance(90) ? "T" : "B", StringFrag(w)); if (r.chance(80)) s.aim.setValue(it, "condition", any(r, CONDS)); if (r.chance(20)) vals(r, s, it, 20); return it;
}
// the same dice give the same lattice
void build(Rng r, Side& s) {
    std::vector<std::string> w; std::vector<int> at; std::string t; int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) { if (i && r.chance(80)) { at.push_back(t.size()); w.push_back(" "); t += " "; } at.push_back(t.size()); w.push_back(any(r, WORDS)); t += w.back(); }
    at.push_back(t.size()); if (r.chance(70)) s.l.appendStringWithSymbols(t); else s.l.appendString(t);
    std::string pl = "!pl"; std::vector<E> none; int m = w.size(); bool loose = r.chance(50);
    std::vector<E> all;
    for (int i = 0; i < m; ++i) {
        bool b = w[i] == " "; std::string lang = r.chance(90) ? "!pl" : "!en";
        if (r.chance(8)) continue;
        E tok = put(s, at[i], at[i + 1], AnnotationItem(b ? "B" : r.chance(85) ? "T" : "I", StringFrag(w[i])), "token," + lang + (r.chance(10) ? ",morfologik" : ""), none); all.push_back(tok);
        if (!b && r.chance(15)) { int e = std::min(m, i + 2); if (e > i + 1) all.push_back(put(s, at[i], at[e], AnnotationItem("T", StringFrag(w[i])), "token," + lang, none)); }
        if (b) { if (r.chance(20)) all.push_back(put(s, at[i], at[i + 1], AnnotationItem("B", StringFrag(" ")), "alt," + lang, none)); continue; }
        for (int k = r.range(0, 3); k > 0; --k) {
            std::vector<E> p(1, tok); std::string lc = r.chance(70) ? "word" : any(r, CATS), lw = any(r, WORDS); if (lc == "T" && lw == w[i]) lc = "word"; E lem = put(s, at[i], at[i + 1], AnnotationItem(lc, StringFrag(lw)), "lemma," + lang, p); all.push_back(lem);
            for (int j = r.range(0, 3); j > 0; --j) {
                p[0] = r.chance(70) ? lem : tok; AnnotationItem x(any(r, CATS), StringFrag(r.chance(30) ? any(r, WORDS) : any(r, WORDS) + "+" + any(r, CATS))); vals(r, s, x, 25);
                std::string lt = std::string(r.chance(50) ? "lexeme,morfologik," : "lexeme,") + (r.chance(60) ? "src-tagset," : "") + lang; E lex; try { lex = put(s, at[i], at[i + 1], x, lt, p); } catch (std::exception&) { continue; } all.push_back(lex);
                for (int q = r.range(0, 2); q > 0; --q) { p[0] = lex; AnnotationItem y(x); vals(r, s, y, 30); std::vector<E> p2(p); if (r.chance(20)) p2.push_back(r.pick(all)); try { all.push_back(put(s, at[i], at[i + 1], y, "form,src-tagset," + lang, p2)); } catch (EdgeSelfReferenceException&) {} catch (std::exception&) {} }
            }
        }
        for (int k = r.range(0, 3); k > 0; --k) {
            int e = std::min(m, i + (r.chance(70) ? 1 : 1 + (int)r.below(4)));
            if (loose && r.chance(35)) { int v = s.l.addLooseVertex(), u = s.l.addLooseVertex(); put(s, at[i], v, alt(r, s, any(r, WORDS)), "alt,!pl", none); put(s, v, u, AnnotationItem("B", StringFrag(" ")), "alt,!pl", none); put(s, u, at[e], alt(r, s, any(r, WORDS)), "alt,!pl", none); }
            else all.push_back(put(s, at[i], at[e], alt(r, s, any(r, WORDS)), r.chance(80) ? "alt,!pl" : "alt,token,!pl", none));
        }
    }
}
bool has(const TagSet& t, const std::string& spec) { std::vector<std::string> a = split(spec, ';'); for (size_t i = 0; i < a.size(); ++i) { std::vector<std::string> c = split(a[i], ','); bool all = true; for (size_t k = 0; k < c.size(); ++k) if (!t.count(c[k])) all = false; if (all) return true; } return false; }
std::vector<E> outs(Side& s, int v, const std::string& spec) { std::vector<E> o; Lattice::InOutEdgesIterator it = s.l.allOutEdges(v); while (it.hasNext()) { E e = it.next(); if (spec.empty() || has(tagset(s.l, s.l.getEdgeLayerTags(e)), spec)) o.push_back(e); } return o; }
std::vector<int> vertices(Side& s, bool loose) { std::vector<int> o; Lattice::VertexIterator vi(s.l, !loose); while (vi.hasNext()) o.push_back(vi.next()); return o; }
Vals values(Side& s, E e) { std::list<SP> v = s.aim.getValues(s.l.getEdgeAnnotationItem(e)); return Vals(v.begin(), v.end()); }
// --- what the tools do ---------------------------------------------------------------------------------------------
struct Sel { std::string in, fb, test, out; bool blank; };
bool holds(Side& s, const Sel& o, E e) {
    Vals v = values(s, e); std::string cond; bool got = false; for (size_t i = 0; i < v.size(); ++i) if (v[i].first == "condition") { cond = v[i].second; got = true; }
    if (!got || cond == "*") return true;
    std::vector<E> t = outs(s, s.l.getEdgeSource(e), o.test);
    for (size_t i = 0; i < t.size(); ++i) {
        if (s.l.getEdgeTarget(t[i]) != s.l.getEdgeTarget(e)) continue;
        std::set<std::string> facts; facts.insert(s.l.getAnnotationCategory(t[i])); Vals tv = values(s, t[i]); for (size_t k = 0; k < tv.size(); ++k) facts.insert(tv[k].first + "=" + tv[k].second);
        std::vector<std::string> alts = split(cond, '|');
        for (size_t a = 0; a < alts.size(); ++a) { std::vector<std::string> cs = split(alts[a], '&'); bool ok = true; for (size_t k = 0; k < cs.size(); ++k) if (!facts.count(cs[k])) ok = false; if (ok) return true; }
    }
    return false;
}
void select(Side& s, const Sel& o) {
    std::vector<int> vs = vertices(s, true);
    for (size_t i = 0; i < vs.size(); ++i) {
        std::vector<E> fb = outs(s, vs[i], o.fb); if (fb.empty()) continue;
        int goal = s.l.getEdgeTarget(fb[0]); std::vector<E> starts = outs(s, vs[i], o.in), chosen;
        for (size_t k = 0; k < starts.size(); ++k) {
            std::vector<E> chain(1, starts[k]); bool ok = holds(s, o, starts[k]);
            while (ok && s.l.getEdgeTarget(chain.back()) != goal) { std::vector<E> n = outs(s, s.l.getEdgeTarget(chain.back()), o.in); if (n.empty()) break; ok = holds(s, o, n[0]); chain.push_back(n[0]); }
            if (ok) chosen.insert(chosen.end(), chain.begin(), chain.end());
        }
        bool fall = chosen.empty(); if (fall) chosen.push_back(fb[0]);
        for (size_t k = 0; k < chosen.size(); ++k) {
            AnnotationItem it = s.l.getEdgeAnnotationItem(chosen[k]); if (!o.blank && it.getCategory() == "B") continue;
            if (fall && tagset(s.l, s.l.getEdgeLayerTags(chosen[k])).count("morfologik")) it = AnnotationItem(it, StringFrag(s.l.getEdgeText(chosen[k])));
            put(s, s.l.getEdgeSource(chosen[k]), s.l.getEdgeTarget(chosen[k]), it, o.out, std::vector<E>());
        }
    }
}
void antiselect(Side& s, const Sel& o) {
    std::vector<int> vs = vertices(s, true);
    for (size_t i = 0; i < vs.size(); ++i) {
        std::vector<E> fb = outs(s, vs[i], o.fb), in = outs(s, vs[i], o.in);
        for (size_t k = 0; k < fb.size(); ++k) {
            bool co = false; for (size_t j = 0; j < in.size(); ++j) if (s.l.getEdgeTarget(in[j]) == s.l.getEdgeTarget(fb[k])) co = true;
            if (!co && (o.blank || s.l.getAnnotationCategory(fb[k]) != "B")) put(s, vs[i], s.l.getEdgeTarget(fb[k]), s.l.getEdgeAnnotationItem(fb[k]), o.out, std::vector<E>());
        }
    }
}
TagSet planes(const TagSet& t) { TagSet o; for (TagSet::const_iterator i = t.begin(); i != t.end(); ++i) if (!i->empty() && (*i)[0] == '!') o.insert(*i); return o; }
// an edge made of others: one that would be a part of itself only gets the tags
E make_edge(Side& s, int from, int to, const std::vector<E>& parts, const AnnotationItem& it, const std::string& out) {
    std::list<std::string> t = tl(out); TagSet pl = planes(TagSet(t.begin(), t.end()));
    if (pl.empty()) for (size_t i = 0; i < parts.size(); ++i) { TagSet p = planes(tagset(s.l, s.l.getEdgeLayerTags(parts[i]))); pl.insert(p.begin(), p.end()); }
    for (size_t i = 0; i < parts.size(); ++i) if (s.l.getEdgeSource(parts[i]) == from && s.l.getEdgeTarget(parts[i]) == to && s.l.getEdgeAnnotationItem(parts[i]) == it && planes(tagset(s.l, s.l.getEdgeLayerTags(parts[i]))) == pl) {
        t.insert(t.end(), pl.begin(), pl.end()); s.l.addEdge(from, to, it, s.t().createTagCollection(t)); return parts[i]; }
    return put(s, from, to, it, out, parts);
}
void make_edge(Side& s, const std::vector<E>& parts, const AnnotationItem& it, const std::string& out) { make_edge(s, s.l.getEdgeSource(parts[0]), s.l.getEdgeTarget(parts[0]), parts, it, out); }
struct Join { std::string left, right, out, lang; bool rtext, rcat; int attrs; bool outer, extended; };
std::vector<E> ancestors(Side& s, E e) { std::vector<E> o; EView v = view(s.l, e); for (size_t p = 0; p < v.parts.size(); ++p) o.insert(o.end(), v.parts[p].links.begin(), v.parts[p].links.end()); return o; }
void join(Side& s, const Join& o) {
    std::string lm, rm; { std::vector<std::string> a = split(o.left, ';'), b = split(o.right, ';'); for (size_t i = 0; i < a.size(); ++i) lm += (i ? ";" : "") + a[i] + ",!" + o.lang; for (size_t i = 0; i < b.size(); ++i) rm += (i ? ";" : "") + b[i] + ",!" + o.lang; }
    std::vector<int> vs = vertices(s, true);
    for (size_t i = 0; i < vs.size(); ++i) {
        std::vector<E> left = outs(s, vs[i], lm);
        for (size_t k = 0; k < left.size(); ++k) {
            E e = left[k]; std::vector<E> up = ancestors(s, e); bool found = false; int to = s.l.getEdgeTarget(e);
            if (!up.empty() && s.l.getEdgeSource(up[0]) == vs[i] && s.l.getEdgeTarget(up[0]) == to) {
                std::vector<E> right = outs(s, vs[i], rm), ok;
                for (size_t j = 0; j < right.size(); ++j) { if (s.l.getEdgeTarget(right[j]) != to) continue; std::vector<E> ru = ancestors(s, right[j]); if (std::find(ru.begin(), ru.end(), up[0]) != ru.end()) ok.push_back(right[j]); }
                for (size_t j = 0; j < ok.size(); ++j) {
                    found = true; E r = ok[j]; AnnotationItem it(o.rcat ? s.l.getAnnotationCategory(r) : s.l.getAnnotationCategory(e), StringFrag(o.rtext ? s.l.getAnnotationText(r) : s.l.getAnnotationText(e)));
                    if (o.attrs != 2) { Vals v = values(s, e); for (size_t q = 0; q < v.size(); ++q) s.aim.setValue(it, v[q].first, v[q].second); }
                    if (o.attrs != 1) { Vals v = values(s, r); for (size_t q = 0; q < v.size(); ++q) s.aim.setValue(it, v[q].first, v[q].second); }
                    std::vector<E> p; p.push_back(e); p.push_back(r); make_edge(s, p, it, o.out);
                }
            }
            if (o.extended || (!found && o.outer)) make_edge(s, std::vector<E>(1, e), s.l.getEdgeAnnotationItem(e), o.out);
        }
    }
}
struct Map { std::string in, out; bool ktext, kcat, kattr, ctext, ccat, cattr, add; std::string stext, scat, sattr; bool uct, ucc, uca; std::string ust, usc, usa; std::vector<std::pair<std::string, std::string> > lex; };
Vals attrs(const std::string& s) { Vals o; if (s.empty()) { o.push_back(SP("", "1")); return o; } std::vector<std::string> a = split(s, ','); for (size_t i = 0; i < a.size(); ++i) { size_t e = a[i].find('='); if (e == std::string::npos) o.push_back(SP(a[i], "1")); else o.push_back(SP(a[i].substr(0, e), a[i].substr(e + 1))); } return o; }
void setall(Side& s, AnnotationItem& it, const Vals& v) { for (size_t i = 0; i < v.size(); ++i) s.aim.setValue(it, v[i].first, v[i].second); }
std::string mapkey(Side& s, const Map& o, E e) { std::vector<std::string> k; if (o.ktext) k.push_back(s.l.getAnnotationText(e)); if (o.kcat) k.push_back(s.l.getAnnotationCategory(e)); if (o.kattr) { Vals v = values(s, e); std::set<std::string> as; for (size_t i = 0; i < v.size(); ++i) as.insert(v[i].first + "=" + v[i].second); k.insert(k.end(), as.begin(), as.end()); } std::string r; for (size_t i = 0; i < k.size(); ++i) r += (i ? "," : "") + k[i]; return r; }
void map(Side& s, const Map& o) {
    std::vector<E> es; { std::vector<int> vs = vertices(s, true); for (size_t i = 0; i < vs.size(); ++i) { Lattice::InOutEdgesIterator it = s.l.allInEdges(vs[i]); while (it.hasNext()) { E e = it.next(); if (has(tagset(s.l, s.l.getEdgeLayerTags(e)), o.in)) es.push_back(e); } } }
    for (size_t i = 0; i < es.size(); ++i) {
        E e = es[i]; std::string key = mapkey(s, o, e); bool known = false;
        for (size_t k = 0; k < o.lex.size(); ++k) if (o.lex[k].first == key) {
            known = true; std::vector<std::string> f = split(o.lex[k].second, '\t');
            std::string text = o.ctext ? s.l.getAnnotationText(e) : !o.stext.empty() ? o.stext : f[0], cat = o.ccat ? s.l.getAnnotationCategory(e) : !o.scat.empty() ? o.scat : f.size() > 1 ? f[1] : o.lex[k].second;
            AnnotationItem it(cat, StringFrag(text)); if (o.cattr) setall(s, it, values(s, e)); if (!o.sattr.empty()) setall(s, it, attrs(o.sattr)); if (o.add && f.size() > 2) setall(s, it, attrs(f[2]));
            make_edge(s, std::vector<E>(1, e), it, o.out);
        }
        if (!known && (o.uct || o.ucc || o.uca || !o.ust.empty() || !o.usc.empty() || !o.usa.empty())) {
            AnnotationItem it(o.ucc ? s.l.getAnnotationCategory(e) : o.usc.empty() ? "unknown" : o.usc, StringFrag(o.uct ? s.l.getAnnotationText(e) : o.ust.empty() ? "unknown" : o.ust));
            if (o.uca) setall(s, it, values(s, e)); if (!o.usa.empty()) setall(s, it, attrs(o.usa)); make_edge(s, std::vector<E>(1, e), it, o.out);
        }
    }
}
struct Rule { std::set<std::string> words; Vals conds, cmds; bool skip; Rule() : skip(false) {} };
struct Conv { std::string src, trg; TagSet keep; std::map<std::string, std::string> cat, attr, val; std::vector<Rule> rules; };
void convert(Side& s, const Conv& o) {
    std::vector<E> es; { std::vector<int> vs = vertices(s, true); for (size_t i = 0; i < vs.size(); ++i) { std::vector<E> x = outs(s, vs[i], o.src); es.insert(es.end(), x.begin(), x.end()); } }
    std::map<E, E> repl;
    for (size_t i = 0; i < es.size(); ++i) {
        E e = es[i]; EView ev = view(s.l, e); AnnotationItem src = s.l.getEdgeAnnotationItem(e); AnnotationItem it(o.cat.count(ev.cat) ? o.cat.find(ev.cat)->second : ev.cat, StringFrag(ev.text));
        for (size_t k = 0; k < ev.av.size(); ++k) { std::string a = ev.av[k].first, v = ev.av[k].second; if (o.attr.count(a)) a = o.attr.find(a)->second; if (o.val.count(v)) v = o.val.find(v)->second; s.aim.setValue(it, a, v); }
        std::vector<AnnotationItem> items(1, it);
        for (size_t q = 0; q < o.rules.size(); ++q) {
            const Rule& r = o.rules[q]; std::vector<AnnotationItem> next, tail;
            for (size_t k = 0; k < items.size(); ++k) {
                AnnotationItem x = items[k]; bool ok = r.words.empty() || r.words.count(x.getText().substr(0, x.getText().find('+')));
                for (size_t z = 0; z < r.conds.size(); ++z) if ((r.conds[z].first == "CAT" ? x.getCategory() : s.aim.getValueAsString(x, r.conds[z].first)) != r.conds[z].second) ok = false;
                if (!ok) { next.push_back(x); continue; }
                if (r.skip) continue;
                std::vector<AnnotationItem> al(1, x);
                for (size_t z = 0; z < r.cmds.size(); ++z) {
                    std::vector<std::string> vs = split(r.cmds[z].second, '|'); std::vector<AnnotationItem> na;
                    for (size_t b = 0; b < vs.size(); ++b) for (size_t y = 0; y < al.size(); ++y) {
                        AnnotationItem n = al[y]; const std::string& v = vs[b];
                        if (r.cmds[z].first == "CAT") s.aim.setCategory(n, v[0] == '$' ? s.aim.getValueAsString(n, v.substr(1)) : v);
                        else if (v[0] == '$') s.aim.setValue(n, r.cmds[z].first, s.aim.getValue(n, v.substr(1)));
                        else if (v == "0") s.aim.setValue(n, r.cmds[z].first, s.aim.any_value());
                        else if (v == "-1") s.aim.setValue(n, r.cmds[z].first, s.aim.false_value());
                        else s.aim.setValue(n, r.cmds[z].first, v);
                        na.push_back(n);
                    }
                    al = na;
                }
                next.push_back(al[0]); tail.insert(tail.end(), al.begin() + 1, al.end());
            }
            next.insert(next.end(), tail.begin(), tail.end()); items = next;
        }
        std::string tags = "tagset-converter," + o.trg; for (TagSet::const_iterator k = ev.tags.begin(); k != ev.tags.end(); ++k) if (o.keep.count(*k)) tags += "," + *k;
        for (size_t p = 0; p < ev.parts.size(); ++p) {
            std::vector<E> ps = ev.parts[p].links; for (size_t k = 0; k < ps.size(); ++k) if (repl.count(ps[k])) ps[k] = repl[ps[k]];
            E n; for (size_t k = 0; k < items.size(); ++k) n = make_edge(s, ev.from, ev.to, ps, items[k], tags);
            if (items.size() == 1 && !repl.count(e)) repl[e] = n;
        }
    }
}
std::map<std::string, std::string> norm;
void normalize(Side& s, const std::string& lang) {
    std::vector<int> vs = vertices(s, true);
    for (size_t i = 0; i < vs.size(); ++i) { std::vector<E> t = outs(s, vs[i], "token,!" + lang); for (size_t k = 0; k < t.size(); ++k) { std::map<std::string, std::string>::iterator f = norm.find(s.l.getEdgeText(t[k])); if (s.l.getAnnotationCategory(t[k]) == "T" && f != norm.end()) put(s, vs[i], s.l.getEdgeTarget(t[k]), AnnotationItem("T", StringFrag(f->second)), "simplenorm,normalization,!" + lang, std::vector<E>()); } }
}
// --- options -------------------------------------------------------------------------------------------------------
std::string file(const std::string& name, const std::string& text) { std::string p = std::string(getenv("VF_TMP")) + "/c27-" + str((long)getpid()) + "-" + name; std::ofstream f(p.c_str(), std::ios::binary); f << text; return p; }
std::string lay(Rng& r) { static const char* L[] = {"token", "lemma", "lexeme", "form", "alt", "lexeme,src-tagset", "lemma,!pl", "token,!pl", "alt;form", "nothing"}; return L[r.below(10)]; }
std::string outtags(Rng& r) { static const char* L[] = {"done", "done,!pl", "done,more", "more,done,!en"}; return L[r.below(4)]; }
std::vector<std::string> uniq(const LView& v) {          // equal partitions count once
    std::vector<std::string> d = dump(v); for (size_t i = 0; i < d.size(); ++i) { std::vector<std::string> p; size_t b = d[i].find(" (", d[i].find("} ")); if (b == std::string::npos) continue; std::string head = d[i].substr(0, b); std::set<std::string> ps; std::string rest = d[i].substr(b); size_t x = 0; while (x < rest.size()) { size_t e = rest.find(" (", x + 2); if (e == std::string::npos) e = rest.size(); ps.insert(rest.substr(x, e - x)); x = e; } d[i] = head; for (std::set<std::string>::iterator q = ps.begin(); q != ps.end(); ++q) d[i] += *q; }
    std::sort(d.begin(), d.end()); return d;
}
void same(Ctx& c, Side& a, Side& b, size_t before, const std::string& what) {
    std::vector<std::string> x = uniq(view(a.l)), y = uniq(view(b.l)), d;
    std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(d)); for (size_t i = 0; i < x.size(); ++i) c.expect(true, "", ""); if (!d.empty()) c.fail(what, what + " left an edge that does not follow from its options and rules: " + d[0]);
    d.clear(); std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(d)); if (!d.empty()) c.fail(what, what + " did not leave the edge that follows from its options and rules: " + d[0]);
    { LView v = view(a.l); int z = cyclic(v); c.expect(z < 0, "cycle", what + " left an edge that consists of itself: " + (z < 0 ? "" : v.e[z].show())); }
    c.count("edges compared", (long)x.size()); c.count(("edges added by " + what).c_str(), (long)x.size() - (long)before); if (x.size() > before) c.nontrivial = true;
}
void run(Ctx& c, const std::string& name, const Args& args, Side& a) {
    std::string s = name; for (size_t i = 0; i < args.size(); ++i) s += " " + q(args[i]); c.note(s);
    Made m = make(name, args);
    try { m.p->annotate(a.l); } catch (std::exception& e) { c.fail("failure:" + name, name + " fails: " + e.what()); }
}
void opt(Args& a, Rng& r, int p, const char* o, bool& f) { f = r.chance(p); if (f) a.push_back(o); }
void optv(Args& a, Rng& r, int p, const char* o, std::string& f, const std::string& v) { if (r.chance(p)) { f = v; a.push_back(o); a.push_back(v); } }
}
namespace vf {
void setup(const std::string&) {}
void run_case(Ctx& c) {
    Rng& r = c.r; Side a, b; { Rng s(r.next()); build(s, a); build(s, b); }
    LView v0 = view(a.l); size_t n0 = v0.e.size(); c.note("text " + q(v0.text)); { std::vector<std::string> d = dump(v0); for (size_t i = 0; i < d.size(); ++i) if (d[i].find("{symbol }") == std::string::npos) c.note(d[i]); }
    int k = r.below(6); Args g;
    if (k == 0 || k == 1) {
        Sel o; o.in = r.chance(60) ? "alt" : lay(r); o.fb = r.chance(60) ? "token" : lay(r); o.out = outtags(r); g = {"--in-tag", o.in, "--fallback-tag", o.fb, "--out-tags", o.out};
        opt(g, r, 40, "--with-blank", o.blank); if (k == 0) { optv(g, r, 70, "--test-tag", o.test, r.chance(60) ? "lexeme" : lay(r)); if (o.test.empty()) o.test = ""; }
        c.kind = k ? "antiselector" : "selector"; run(c, c.kind, g, a); if (k) antiselect(b, o); else select(b, o); same(c, a, b, n0, c.kind);
    } else if (k == 2) {
        Join o; o.lang = r.chance(90) ? "pl" : "en"; o.left = r.chance(50) ? "lemma" : lay(r); o.right = r.chance(50) ? "lexeme" : lay(r); o.out = outtags(r); g = {"--lang", o.lang, "--left-mask", o.left, "--right-mask", o.right, "--out-tags", o.out};
        opt(g, r, 40, "--take-right-text", o.rtext); opt(g, r, 40, "--take-right-category", o.rcat); o.attrs = r.below(3); if (o.attrs == 1) g.push_back("--take-left-attributes"); if (o.attrs == 2) g.push_back("--take-right-attributes");
        bool no; opt(g, r, 40, "--no-outer-join", no); o.outer = !no; opt(g, r, 30, "--extended-outer-join", o.extended);
        c.kind = "joiner"; run(c, c.kind, g, a); join(b, o); same(c, a, b, n0, c.kind);
    } else if (k == 3) {
        Map o; o.in = lay(r); while (o.in.find(';') != std::string::npos) o.in = lay(r); o.out = outtags(r); g = {"--lang", "pl", "--in-tags", o.in, "--out-tags", o.out};
        opt(g, r, 70, "--consider-text", o.ktext); opt(g, r, 40, "--consider-category", o.kcat); opt(g, r, 40, "--consider-attributes", o.kattr); if (!o.ktext && !o.kcat && !o.kattr) { o.ktext = true; g.push_back("--consider-text"); }
        opt(g, r, 30, "--clone-text", o.ctext); opt(g, r, 40, "--clone-category", o.ccat); opt(g, r, 40, "--clone-attributes", o.cattr); opt(g, r, 50, "--add-attributes", o.add);
        if (!o.ctext) optv(g, r, 20, "--set-text", o.stext, "nowy"); if (!o.ccat) optv(g, r, 20, "--set-category", o.scat, any(r, CATS)); if (!o.cattr) optv(g, r, 30, "--set-attributes", o.sattr, r.chance(50) ? "number=sg,x" : "case=gen");
        opt(g, r, 25, "--unknown-clone-text", o.uct); opt(g, r, 25, "--unknown-clone-category", o.ucc); opt(g, r, 25, "--unknown-clone-attributes", o.uca);
        if (!o.uct) optv(g, r, 20, "--unknown-set-text", o.ust, "obcy"); if (!o.ucc) optv(g, r, 20, "--unknown-set-category", o.usc, "xx"); if (!o.uca) optv(g, r, 20, "--unknown-set-attributes", o.usa, "y=2,z");
        std::string lex; std::set<std::string> keys; for (size_t i = 0; i < v0.e.size(); ++i) if (has(v0.e[i].tags, o.in) && r.chance(60)) keys.insert(mapkey(a, o, v0.e[i].d)); keys.insert("nikt");
        for (std::set<std::string>::iterator i = keys.begin(); i != keys.end(); ++i) {
            if (i->empty() || i->find_first_of(" \t#;") != std::string::npos) continue;
            for (int n = r.range(1, 3); n > 0; --n) { std::string rec = r.chance(25) ? i->substr(0, i->find(',')) : any(r, WORDS); if (r.chance(60)) { rec += "\t" + any(r, CATS); if (r.chance(60)) rec += r.chance(50) ? "\tnumber=pl,q" : "\tcase=nom"; } bool dup = false; for (size_t z = 0; z < o.lex.size(); ++z) if (o.lex[z] == SP(*i, rec)) dup = true; if (dup) continue; o.lex.push_back(SP(*i, rec)); lex += *i + "\t" + rec + "\n"; }
        }
        std::string f = file("lex", lex); c.note("lexicon " + q(lex)); g.push_back("--plain-text-lexicon"); g.push_back(f);
        if (r.chance(30)) { std::string bin = file("bin", ""); Args s(g); s.push_back("--save-binary-lexicon"); s.push_back(bin); make("mapper", s); g[g.size() - 2] = "--binary-lexicon"; g[g.size() - 1] = bin; c.count("binary lexicons"); }
        c.kind = "mapper"; run(c, c.kind, g, a); map(b, o); same(c, a, b, n0, c.kind);
    } else if (k == 4) {
        Conv o; std::ostringstream f; o.src = r.chance(70) ? "src-tagset" : lay(r); while (o.src.find_first_of(",;") != std::string::npos) o.src = lay(r); o.trg = "trg-tagset"; f << "# rules\n@source " << o.src << "\n"; if (r.chance(50)) f << "\n"; f << "@target\ttrg-tagset\n";
        std::string keep = r.chance(70) ? "lexeme form !pl !en" : "lemma !pl"; { std::vector<std::string> k = split(keep, ' '); o.keep.insert(k.begin(), k.end()); if (o.keep.count(o.src)) { o.keep.erase(o.src); keep = ""; for (TagSet::iterator z = o.keep.begin(); z != o.keep.end(); ++z) keep += (keep.empty() ? "" : " ") + *z; } } f << "@tags " << keep << "\n";
        for (int n = r.range(0, 3); n > 0; --n) { std::string x = any(r, CATS), y = r.chance(60) ? "K" + x : any(r, CATS); if (o.cat.insert(SP(x, y)).second) f << "@cat " << x << "\t" << y << "\n"; }
        static const char* AN[] = {"number", "case", "gender", "n"}; static const char* VN[] = {"sg", "pl", "nom", "gen", "m1", "f", "1", "2"};
        for (int n = r.range(0, 3); n > 0; --n) { std::string x = any(r, AN), y = "A" + x; if (o.attr.insert(SP(x, y)).second) f << "@attr  " << x << " " << y << "\n"; }
        if (r.chance(50)) f << (r.chance(50) ? "   \n" : "\n");
        for (int n = r.range(0, 3); n > 0; --n) { std::string x = any(r, VN), y = r.chance(50) ? "V" + x : any(r, VN); if (o.val.insert(SP(x, y)).second) f << "@val " << x << " " << y << "\n"; }
        for (int n = r.range(0, 5); n > 0; --n) {
            Rule u; std::string l; int ncond = r.range(1, 3);
            for (int i = 0; i < ncond; ++i) {
                if (i) l += ", "; int w = r.range(0, 9);
                if (w < 4) { std::string x = r.chance(60) ? any(r, CATS) : "K" + any(r, CATS); u.conds.push_back(SP("CAT", x)); l += "CAT = " + x; }
                else if (w < 8) { std::string x = any(r, AN), y = any(r, VN); if (r.chance(40)) x = "A" + x; if (r.chance(20)) y = "V" + y; u.conds.push_back(SP(x, y)); l += x + (r.chance(50) ? " = " : "=") + y; }
                else { std::string x; for (int z = r.range(1, 4); z > 0; --z) { std::string y = any(r, WORDS); if (y.find(',') != std::string::npos) y = "kot"; u.words.insert(y); x += (x.empty() ? "" : " ") + y; } l += x; }
            }
            l += " >> "; bool bred = false; int nc = r.range(1, 3); if (r.chance(15)) { u.skip = true; l += "SKIP"; nc = 0; }
            for (int i = 0; i < nc; ++i) {
                std::string x = r.chance(35) ? "CAT" : r.chance(50) ? "A" + any(r, AN) : any(r, AN), y; bool isc = x == "CAT"; int na = !bred && r.chance(35) ? r.range(2, 3) : 1; if (na > 1) bred = true;
                for (int z = 0; z < na; ++z) { int w = r.range(0, 9); y += (z ? "|" : ""); y += w < 2 ? "$" + (r.chance(50) ? "A" + any(r, AN) : any(r, AN)) : isc ? any(r, CATS) : w == 2 ? "0" : w == 3 ? "-1" : any(r, VN); }
                u.cmds.push_back(SP(x, y)); l += (i ? ", " : "") + x + (r.chance(50) ? " = " : "=") + y;
            }
            o.rules.push_back(u); f << l << "\n"; if (r.chance(15)) f << "# note\n"; if (r.chance(15)) f << "\n";
        }
        std::string p = file("rules", f.str()); c.note("rules " + q(f.str())); g = {"--lang", "pl", "--rules", p};
        c.kind = "tagset-converter"; run(c, c.kind, g, a); convert(b, o); same(c, a, b, n0, c.kind);
    } else {
        norm.clear(); std::string f; for (int n = r.range(0, 8); n > 0; --n) { std::string x = any(r, WORDS), y = r.chance(20) ? x : r.chance(10) ? "" : any(r, WORDS) + (r.chance(30) ? " x" : ""); norm[x] = y; f += x + "\t" + y + "\n"; if (r.chance(15)) f += r.chance(50) ? "\n" : "bez\n"; }
        std::string p = file("norm", f); c.note("rules " + q(f)); std::string lang = r.chance(85) ? "pl" : "en"; g = {"--lang", lang, "--rules", p};
        c.kind = "simplenorm-normalizer"; run(c, c.kind, g, a); normalize(b, lang); same(c, a, b, n0, c.kind);
    }
    const char* N[] = {"lex", "bin", "rules", "norm"}; for (int i = 0; i < 4; ++i) unlink((std::string(getenv("VF_TMP")) + "/c27-" + str((long)getpid()) + "-" + N[i]).c_str());
}
}
VF_MAIN

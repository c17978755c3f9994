// C23: the maximum-entropy classifier (probabilities, training, model files) and the tagger built on it.
#include "h.hpp"
#include <cmath>
#include <fstream>
#include "maxentmodel.hpp"
#include "me_tagger.hpp"
namespace vf {
typedef maxent::MaxentModel MM;
typedef std::vector<std::pair<std::string, float> > Cx;
struct Ev { Cx c; std::string o; int n; };
struct Set { std::vector<Ev> e; std::vector<std::string> preds, outs; int cutoff; bool binary; };
static std::string tmp() { static std::string t = std::string(getenv("VF_TMP") ? getenv("VF_TMP") : "/tmp") + "/c23-" + str(getpid()); return t; }
static std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

static std::string name(Rng& r, bool text) {
    std::string s;
    switch (r.range(0, 9)) {
        case 0: s = rand_text(r, 12); break;
        case 1: s = "#" + rand_word(r, 3); break;
        case 2: s = rand_bytes(r, 8); break;
        case 3: s = str(r.below(40)); break;
        case 4: s = r.chance(8) ? std::string(4090 + r.below(12), 'a' + r.below(3)) : "a b"; break;
        default: s = std::string("feature=") + rand_word(r, 4);
    }
    if (text) { std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] != '\n') o += s[i]; s = o; }
    return s;
}
static Cx context(Rng& r, const Set& s, bool unseen) {
    Cx c; std::set<std::string> used; int n = r.range(unseen ? 0 : 1, 5);
    for (int i = 0; i < n; ++i) {
        std::string p = unseen && r.chance(15) ? "unseen" + str(r.below(5)) : r.pick(s.preds); if (!used.insert(p).second) continue;
        float v = s.binary ? 1.0f : r.chance(20) ? 0.0f : r.chance(50) ? (float)r.range(1, 4) : (float)(r.below(1000) / 256.0);
        c.push_back(std::make_pair(p, v));
    }
    return c;
}
static Set events(Rng& r, bool text, bool binary, int maxev) {
    Set s; s.binary = binary; s.cutoff = r.chance(80) ? 1 : 2;
    int np = r.range(1, 10), no = r.chance(4) ? r.range(148, 160) : r.range(1, 6); std::set<std::string> u;
    for (int i = 0; i < np; ++i) { std::string x = name(r, text); if (u.insert(x).second) s.preds.push_back(x); } u.clear();
    for (int i = 0; i < no; ++i) { std::string x = no > 10 ? "out" + str(i) : name(r, text); if (u.insert(x).second) s.outs.push_back(x); }
    int n = r.range(1, maxev); if (no > 10) n += no;
    for (int i = 0; i < n; ++i) {
        Ev e; if (i && r.chance(25)) { e = s.e[r.below(s.e.size())]; if (r.chance(50)) e.o = r.pick(s.outs); } else { e.c = context(r, s, false); e.o = no > 10 && i < no ? s.outs[i % s.outs.size()] : r.pick(s.outs); }
        e.n = r.chance(70) ? 1 : r.range(1, 5); s.e.push_back(e);
    }
    return s;
}
static bool key_less(const std::pair<std::string, float>& a, const std::pair<std::string, float>& b) { return a < b; }
// the reference: events merged, cut off, generalized iterative scaling over the features seen
struct Ref {
    std::map<std::string, int> pid, oid; std::vector<std::string> outs;
    std::vector<std::map<int, int> > par; int nt; std::vector<double> th; bool edge; double ll; long N; std::string fail;
    struct E { std::vector<std::pair<int, double> > c; int o; long n; }; std::vector<E> ev;
    explicit Ref(const Set& s) : nt(0), edge(false), ll(0), N(0) {
        std::map<std::pair<Cx, std::string>, long> m;
        for (size_t i = 0; i < s.e.size(); ++i) { for (size_t j = 0; j < s.e[i].c.size(); ++j) pid.insert(std::make_pair(s.e[i].c[j].first, (int)pid.size())); if (oid.insert(std::make_pair(s.e[i].o, (int)oid.size())).second) outs.push_back(s.e[i].o); Cx c = s.e[i].c; std::sort(c.begin(), c.end(), key_less); m[std::make_pair(c, s.e[i].o)] += s.e[i].n; }
        par.resize(pid.size());
        for (std::map<std::pair<Cx, std::string>, long>::iterator i = m.begin(); i != m.end(); ++i) { if (i->second < s.cutoff) continue; E e; e.o = oid[i->first.second]; e.n = i->second; for (size_t j = 0; j < i->first.first.size(); ++j) e.c.push_back(std::make_pair(pid[i->first.first[j].first], (double)i->first.first[j].second)); ev.push_back(e); N += e.n; }
        for (size_t i = 0; i < ev.size(); ++i) for (size_t j = 0; j < ev[i].c.size(); ++j) if (par[ev[i].c[j].first].insert(std::make_pair(ev[i].o, nt)).second) ++nt;
        th.assign(nt, 0.0);
    }
    std::vector<double> prob(const std::vector<std::pair<int, double> >& c) const {
        std::vector<double> p(outs.size(), 0.0);
        for (size_t i = 0; i < c.size(); ++i) for (std::map<int, int>::const_iterator k = par[c[i].first].begin(); k != par[c[i].first].end(); ++k) p[k->first] += th[k->second] * c[i].second;
        double mx = *std::max_element(p.begin(), p.end()), z = 0; for (size_t i = 0; i < p.size(); ++i) z += p[i] = std::exp(p[i] - mx); for (size_t i = 0; i < p.size(); ++i) p[i] /= z; return p;
    }
    std::vector<double> prob(const Cx& c) const { std::vector<std::pair<int, double> > v; for (size_t i = 0; i < c.size(); ++i) { std::map<std::string, int>::const_iterator k = pid.find(c[i].first); if (k != pid.end()) v.push_back(std::make_pair(k->second, (double)c[i].second)); } return prob(v); }
    double loglik() const { double l = 0; for (size_t i = 0; i < ev.size(); ++i) { double t = std::log(prob(ev[i].c)[ev[i].o]); l += (std::isfinite(t) ? t : std::log(std::numeric_limits<double>::min())) * ev[i].n; } return l; }
    void gis(int iter, double s2, double tol) {
        double C = 0; for (size_t i = 0; i < ev.size(); ++i) { double t = 0; for (size_t j = 0; j < ev[i].c.size(); ++j) t += ev[i].c[j].second; C = std::max(C, t); }
        std::vector<double> obs(nt, 0.0); for (size_t i = 0; i < ev.size(); ++i) for (size_t j = 0; j < ev[i].c.size(); ++j) obs[par[ev[i].c[j].first][ev[i].o]] += ev[i].n * ev[i].c[j].second;
        double old = 99999;
        for (int it = 0; it < iter; ++it) {
            double l = loglik(); std::vector<double> mod(nt, 0.0);
            for (size_t i = 0; i < ev.size(); ++i) { std::vector<double> p = prob(ev[i].c); for (size_t j = 0; j < ev[i].c.size(); ++j) { std::map<int, int>& m = par[ev[i].c[j].first]; for (std::map<int, int>::iterator k = m.begin(); k != m.end(); ++k) mod[k->second] += p[k->first] * ev[i].n * ev[i].c[j].second; } }
            for (int k = 0; k < nt; ++k) {
                if (s2 != 0) { double x = 0; bool ok = false; for (int z = 0; z < 50 && !ok; ++z) { double t = mod[k] * std::exp(C * x), f = t + N * (th[k] + x) / s2 - obs[k], d = t * C + N / s2, y = x - f / d; ok = std::fabs(y - x) < 1e-6; if (!ok && std::fabs(std::fabs(y - x) - 1e-6) < 1e-9) edge = true; x = y; } if (!ok) { fail = "newton"; return; } th[k] += x; }
                else if (mod[k] != 0.0) th[k] += ((obs[k] == 0 ? std::log(std::numeric_limits<double>::min()) : std::log(obs[k])) - std::log(mod[k])) / C;
            }
            double rel = std::fabs((old - l) / old); if (tol > 0 && std::fabs(rel - tol) < 0.01 * tol) edge = true; old = l; if (rel < tol) break;
        }
        ll = loglik();
    }
};
static void fill(MM& m, const Set& s, Rng& r, bool shuffled, bool split) {
    std::vector<Ev> e = s.e; if (shuffled) for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[r.below(i)]);
    m.begin_add_event();
    for (size_t i = 0; i < e.size(); ++i) {
        if (shuffled) for (size_t k = e[i].c.size(); k > 1; --k) std::swap(e[i].c[k - 1], e[i].c[r.below(k)]);
        bool ones = true; std::vector<std::string> v; for (size_t k = 0; k < e[i].c.size(); ++k) { ones = ones && e[i].c[k].second == 1.0f; v.push_back(e[i].c[k].first); }
        int parts = split ? e[i].n : 1; for (int z = 0; z < parts; ++z) if (ones && r.chance(40)) m.add_event(v, e[i].o, split ? 1 : e[i].n); else m.add_event(e[i].c, e[i].o, split ? 1 : e[i].n);
    }
    m.end_add_event(s.cutoff);
}
typedef std::vector<std::pair<std::string, double> > Dist;
static std::string show(const Cx& c) { std::string s = "{"; for (size_t i = 0; i < c.size(); ++i) s += (i ? ", " : "") + q(c[i].first, 60) + ":" + str(c[i].second); return s + "}"; }
// laws of one distribution; gives it back in a map
static std::map<std::string, double> dist(Ctx& c, const MM& m, const Cx& x, const std::string& w) {
    Dist a, b; m.eval_all(x, a, true); m.eval_all(x, b, false); std::map<std::string, double> d; double z = 0; c.eq(a.size(), b.size(), "outcomes", w + "outcomes, sorted and not");
    for (size_t i = 0; i < b.size(); ++i) { c.expect(d.insert(b[i]).second, "outcomes", w + "an outcome twice: " + q(b[i].first)); c.expect(b[i].second >= 0 && b[i].second <= 1 + 1e-12, "range", w + "p(" + q(b[i].first) + "|" + show(x) + ") = " + str(b[i].second)); z += b[i].second; }
    c.expect(std::fabs(z - 1) < 1e-9, "sum", w + "the probabilities given " + show(x) + " add up to " + str(z));
    double mx = 0; for (size_t i = 0; i < a.size(); ++i) { c.expect(d.count(a[i].first) && d[a[i].first] == a[i].second, "sorted", w + "the sorted distribution says something else of " + q(a[i].first)); if (i) c.expect(a[i - 1].second >= a[i].second, "sorted", w + "the distribution is not sorted at " + str(i)); mx = std::max(mx, a[i].second); }
    for (size_t i = 0; i < b.size() && i < 8; ++i) c.eq(m.eval(x, b[i].first), b[i].second, "eval", w + "eval of " + q(b[i].first) + " given " + show(x));
    std::string p = m.predict(x); c.expect(d.count(p) && d[p] == mx, "predict", w + "predict(" + show(x) + ") gives " + q(p) + ", which is not the most probable outcome");
    bool ones = true; std::vector<std::string> v; for (size_t k = 0; k < x.size(); ++k) { ones = ones && x[k].second == 1.0f; v.push_back(x[k].first); }
    if (ones) { Dist e; m.eval_all(v, e, false); c.expect(e == b, "binary", w + "names alone give another distribution than names with value 1"); c.eq(m.predict(v), p, "binary", w + "predict by names alone"); if (!b.empty()) c.eq(m.eval(v, b[0].first), b[0].second, "binary", w + "eval by names alone"); }
    c.count("distributions"); return d;
}
static void close(Ctx& c, const std::map<std::string, double>& a, const std::map<std::string, double>& b, double tol, const std::string& key, const std::string& w) {
    c.eq(a.size(), b.size(), key, w + "number of outcomes");
    for (std::map<std::string, double>::const_iterator i = a.begin(); i != a.end(); ++i) { std::map<std::string, double>::const_iterator j = b.find(i->first); c.expect(j != b.end(), key, w + "outcome " + q(i->first) + " is missing"); c.expect(std::fabs(i->second - j->second) <= tol, key, w + "probability of " + q(i->first) + ": got " + str(i->second) + ", want " + str(j->second)); }
}
static std::map<std::string, double> refdist(const Ref& f, const Cx& x) { std::vector<double> p = f.prob(x); std::map<std::string, double> d; for (size_t i = 0; i < p.size(); ++i) d[f.outs[i]] = p[i]; return d; }

static void model_case(Ctx& c) {
    Rng& r = c.r; c.kind = "model"; bool text = r.chance(50), binary = r.chance(50); Set s = events(r, text, binary, c.thorough ? 60 : 25); Ref f(s);
    if (f.ev.empty() || !f.nt) { s.cutoff = 1; f = Ref(s); } if (f.ev.empty() || !f.nt) return;
    int iter = r.pick(std::vector<int>{1, 2, 5, 15, 40}); double s2 = r.chance(25) ? r.pick(std::vector<double>{0.5, 1, 2, 10}) : 0, tol = r.pick(std::vector<double>{0, 0, 1e-5, 1e-2});
    double sum = 0; for (size_t i = 0; i < f.ev.size(); ++i) for (size_t j = 0; j < f.ev[i].c.size(); ++j) sum += f.ev[i].c[j].second; if (sum == 0) return;    // no feature has a value
    std::string w; for (size_t i = 0; i < s.e.size() && i < 30; ++i) c.note("event " + str(s.e[i].n) + " x " + q(s.e[i].o, 60) + " " + show(s.e[i].c)); c.note("cutoff " + str(s.cutoff) + ", " + str(iter) + " iterations, sigma2 " + str(s2) + ", tol " + str(tol));
    MM a; fill(a, s, r, false, false); std::string method = r.chance(50) ? "gis" : "lbfgs"; bool thrown = false;
    try { a.train(iter, method, s2, tol); } catch (std::runtime_error& e) { thrown = true; }
    f.gis(iter, s2, tol); if (f.edge) { c.count("stopping at the edge"); return; }
    if (thrown || !f.fail.empty()) { c.expect(s2 != 0, "train", "training fails without a prior"); c.count("training fails"); return; }
    std::vector<Cx> xs; for (size_t i = 0; i < s.e.size() && i < 12; ++i) xs.push_back(s.e[i].c); for (int i = 0; i < 8; ++i) xs.push_back(context(r, s, true)); xs.push_back(Cx());
    if (!binary) for (int i = 0; i < 3; ++i) { Cx x = context(r, s, true); for (size_t k = 0; k < x.size(); ++k) x[k].second = (float)(x[k].second * 100); xs.push_back(x); }
    double tl = 2e-3; std::vector<std::map<std::string, double> > da;
    for (size_t i = 0; i < xs.size(); ++i) {
        da.push_back(dist(c, a, xs[i], "")); double big = 0; for (size_t k = 0; k < xs[i].size(); ++k) big = std::max(big, (double)xs[i][k].second);
        if (big <= 5) close(c, da.back(), refdist(f, xs[i]), tl, "training", "trained by generalized iterative scaling, given " + show(xs[i]) + ": ");
    }
    c.eq(a.eval(xs[0], "no such outcome"), 0.0, "unknown", "probability of an outcome never seen");
    // files
    std::string tf = tmp() + ".txt", bf = tmp() + ".bin"; MM b, t; a.save(bf, true); b.load(bf); std::string b1 = slurp(bf); a.save(bf, true); c.expect(slurp(bf) == b1, "stable", "saving the same model twice gives two different binary files");
    for (size_t i = 0; i < xs.size(); ++i) close(c, dist(c, b, xs[i], "loaded from a binary file: "), da[i], 0, "binary-file", "loaded from a binary file, given " + show(xs[i]) + ": ");
    b.save(bf, true); c.expect(slurp(bf) == b1, "stable", "a binary model loaded and saved again is another file");
    if (text) {
        a.save(tf, false); t.load(tf); std::string t1 = slurp(tf);
        for (size_t i = 0; i < xs.size(); ++i) close(c, dist(c, t, xs[i], "loaded from a text file: "), da[i], 0, "text-file", "loaded from a text file, given " + show(xs[i]) + ": ");
        t.save(tf, false); c.expect(slurp(tf) == t1, "stable", "a text model loaded and saved again is another file"); t.save(bf, true); c.expect(slurp(bf) == b1, "stable", "the binary file of a model loaded from text is another"); b.save(tf, false); c.expect(slurp(tf) == t1, "stable", "the text file of a model loaded from binary is another");
        c.count("text files");
    }
    // the same events in another order and with the counts spelt out
    MM o; fill(o, s, r, true, r.chance(50)); o.train(iter, "gis", s2, tol); for (size_t i = 0; i < xs.size(); ++i) { double big = 0; for (size_t k = 0; k < xs[i].size(); ++k) big = std::max(big, (double)xs[i][k].second); if (big <= 5) close(c, dist(c, o, xs[i], ""), da[i], tl, "order", "events in another order, given " + show(xs[i]) + ": "); }
    // more iterations never make the training events less probable
    if (s2 == 0 && f.nt < 60) {
        double last = -1e300; for (int k = 1; k <= 6; ++k) {
            MM g; fill(g, s, r, false, false); g.train(k, "gis", 0, 0); double l = 0; for (size_t i = 0; i < f.ev.size(); ++i) { Cx x; for (size_t j = 0; j < f.ev[i].c.size(); ++j) for (std::map<std::string, int>::iterator z = f.pid.begin(); z != f.pid.end(); ++z) if (z->second == f.ev[i].c[j].first) x.push_back(std::make_pair(z->first, (float)f.ev[i].c[j].second)); l += std::log(std::max(g.eval(x, f.outs[f.ev[i].o]), 1e-300)) * f.ev[i].n; }
            c.expect(l >= last - 1e-6 * std::fabs(last) - 1e-6, "likelihood", "log-likelihood of the training events after " + str(k) + " iterations is " + str(l) + ", after one less " + str(last)); last = l;
        }
        c.count("likelihood chains");
    }
    // training the same model again starts anew
    if (r.chance(30)) { a.train(iter, method, s2, tol); for (size_t i = 0; i < xs.size(); ++i) close(c, dist(c, a, xs[i], ""), da[i], 0, "again", "trained a second time, given " + show(xs[i]) + ": "); }
    c.count("models trained"); c.nontrivial = f.outs.size() > 1;
    unlink(tf.c_str()); unlink(bf.c_str());
}
// ---- the tagger
struct F { Lattice::EdgeDescriptor e; std::string pos; std::vector<std::pair<std::string, std::string> > av; bool disc; std::string lemma; std::string tag() const { std::string t = pos; for (size_t i = 0; i < av.size(); ++i) t += "," + av[i].first + "=" + av[i].second; return t; } };
struct Tok { Lattice::EdgeDescriptor e; std::string w, cat; int from, to; std::vector<F> f; };
struct Doc { boost::shared_ptr<AnnotationItemManager> aim; boost::shared_ptr<Lattice> l; std::vector<std::vector<Tok> > seg; bool segs; };
static const char* POS[] = {"subst", "adj", "fin", "ign", "interp", "conj"};
static LayerTagCollection lt(Lattice& l, const char* t) { return l.getLayerTagManager().createSingletonTagCollectionWithLangCode(t, "pl"); }
static const char* WORDS[] = {"Ala", "ma", "kota", "kot", "psy", "pies", "\xC5\xBB\xC3\xB3\xC5\x82w", "12", "3,5", "2012r", "czerwony", "PKP", "X", "i", "\xC4\x85", "niebieskiego", "e-mail", "."};
static Doc doc(Ctx& c, int maxseg, bool training) {
    Rng& r = c.r; Doc d; d.aim.reset(new AnnotationItemManager); { AnnotationItem x("x"); d.aim->setValue(x, "case", "0"); d.aim->setValue(x, "number", "0"); d.aim->setValue(x, "gender", "0"); } /* attributes known in this order: see the probe */ d.segs = r.chance(70); int ns = d.segs ? r.range(1, maxseg) : 1; std::string text; std::vector<std::vector<std::pair<std::string, bool> > > ws(ns);
    for (int s = 0; s < ns; ++s) { int n = r.range(1, 6); if (s) text += " "; for (int i = 0; i < n; ++i) { std::string w = r.chance(75) ? WORDS[r.below(18)] : rand_word(r, 9); bool sp = i > 0 && (w != "." || r.chance(30)); if (sp) text += " "; ws[s].push_back(std::make_pair(w, sp)); text += w; } }
    d.l.reset(new Lattice(*d.aim, text)); Lattice& l = *d.l; l.addSymbols(l.getFirstVertex(), l.getLastVertex()); int at = 0; std::string note = text + " |";
    for (int s = 0; s < ns; ++s) {
        if (s) { l.addEdge(at, at + 1, AnnotationItem("B", StringFrag(" ")), lt(l, "token")); ++at; } int start = at; d.seg.push_back(std::vector<Tok>());
        for (size_t i = 0; i < ws[s].size(); ++i) {
            if (ws[s][i].second) { l.addEdge(at, at + 1, AnnotationItem("B", StringFrag(" ")), lt(l, "token")); ++at; }
            Tok t; t.w = ws[s][i].first; t.from = at; t.to = at + (int)t.w.size(); at = t.to; t.cat = t.w == "." ? "I" : isdigit((unsigned char)t.w[0]) ? (r.chance(50) ? "T" : "X") : "T"; t.e = l.addEdge(t.from, t.to, AnnotationItem(t.cat, StringFrag(t.w)), lt(l, "token"));
            note += "\n  " + t.w + "/" + t.cat; int nf = training ? r.range(r.chance(15) ? 0 : 1, 1 + r.below(2)) : r.below(4); std::set<std::string> u;
            for (int k = 0; k < nf; ++k) {
                F f; f.pos = POS[r.below(6)]; if (r.chance(20) && !training) f.pos = "new"; f.lemma = r.chance(60) ? t.w : rand_word(r, 4); f.disc = false; static const char* at[] = {"case", "number", "gender"}; AnnotationItem ai(f.pos, StringFrag(t.w));
                for (int z = 0; z < 3; ++z) if (r.chance(35)) { std::string v = str(r.below(2)); d.aim->setValue(ai, at[z], v); }
                std::list<std::pair<std::string, std::string> > v = d.aim->getValues(ai); f.av.assign(v.begin(), v.end()); if (!u.insert(f.tag()).second) continue;
                Lattice::EdgeSequence::Builder b1(l), b2(l), b3(l); b1.addEdge(t.e); Lattice::EdgeDescriptor le = l.addEdge(t.from, t.to, AnnotationItem("word", StringFrag(f.lemma)), lt(l, "lemma"), b1.build()); b2.addEdge(le);
                Lattice::EdgeDescriptor lx = l.addEdge(t.from, t.to, AnnotationItem(f.pos, StringFrag(f.lemma + "+" + f.pos)), lt(l, "lexeme"), b2.build()); b3.addEdge(lx); f.e = l.addEdge(t.from, t.to, ai, lt(l, "form"), b3.build());
                if (r.chance(10)) { f.disc = true; l.discard(f.e); } note += " " + f.tag() + "(" + f.lemma + ")" + (f.disc ? "-" : ""); t.f.push_back(f);
            }
            if (r.chance(10)) l.addEdge(t.from, t.to, AnnotationItem("noun", StringFrag(t.w)), l.getLayerTagManager().createSingletonTagCollectionWithLangCode("form", "en"));
            d.seg.back().push_back(t);
        }
        if (d.segs) l.addEdge(start, at, AnnotationItem("sen", StringFrag(text.substr(start, at - start))), lt(l, "segment"));
    }
    c.note((training ? "train: " : "tag: ") + note); return d;
}
static void uniq(std::vector<std::string>& v) { std::set<std::string> s(v.begin(), v.end()); v.assign(s.begin(), s.end()); }
static bool rx(const std::string& w, const char* p) { RegExp e((std::string(p))); return RegExp::PartialMatch(w, e); }
static void around(std::vector<std::string>& f, const Tok& t, const std::string& pre) { f.push_back(pre + "_word=" + t.w); for (size_t i = 0; i < t.f.size(); ++i) if (!t.f[i].disc) { f.push_back(pre + "_has_tag=" + t.f[i].tag()); f.push_back(pre + "_has_lemma=" + t.f[i].lemma); } }
static std::vector<std::string> features(const std::vector<Tok>& s, size_t i) {
    std::vector<std::string> f; const std::string& w = s[i].w; around(f, s[i], "curr"); f.push_back("curr_word_length=" + str(w.size()));
    bool let = rx(w, "\\p{L}"), num = rx(w, "\\d"); if (rx(w, "^\\p{Lu}")) f.push_back("UpperCaseFirst"); if (rx(w, "^\\p{Lu}+$")) f.push_back("UpperCaseAll"); if (num) f.push_back("ContainsNumber"); if (rx(w, "^\\d+([.,]\\d+)(%)?$")) f.push_back("IsNumber"); if (let) f.push_back("ContainsLetter");
    if (num && w.find_first_of(".,;:?!<>%&'-\"/()[]+=_*$#@~|{}\\") != std::string::npos) f.push_back("ContainsPunctAndNumber"); if (!let && !num) f.push_back("ContainsNoLetterAndNoNumber");
    if (w.size() > 6) { for (int k = 1; k <= 3; ++k) f.push_back("curr_prefix=" + w.substr(0, k)); for (int k = 1; k <= 4; ++k) f.push_back("curr_suffix=" + w.substr(w.size() - k)); }
    around(f, s[i ? i - 1 : 0], "prev1"); around(f, s[i + 1 < s.size() ? i + 1 : i], "next1"); uniq(f); return f;
}
static std::string strip(const std::string& t) { return t.substr(0, t.find(',')); }
static void tagger_case(Ctx& c) {
    Rng& r = c.r; c.kind = "tagger"; std::vector<std::string> open; if (r.chance(60)) { open.push_back("subst"); if (r.chance(50)) open.push_back("adj"); }
    bool text = r.chance(40); std::string mf = tmp() + (text ? ".ttxt" : ".tbin"); int iter = r.range(1, 30); Doc d = doc(c, 12, true);
    // training: an event for every token with a form
    MM ref; ref.begin_add_event(); int n = 0; std::vector<std::vector<std::string> > ctx; std::set<std::string> outs;
    for (size_t s = 0; s < d.seg.size(); ++s) for (size_t i = 0; i < d.seg[s].size(); ++i) {
        const Tok& t = d.seg[s][i]; int first = -1; for (size_t k = 0; k < t.f.size() && first < 0; ++k) if (!t.f[k].disc) first = (int)k; if (first < 0) continue;
        std::vector<std::string> f = features(d.seg[s], i); if (i) { std::string p; const Tok& b = d.seg[s][i - 1]; for (size_t k = 0; k < b.f.size(); ++k) if (!b.f[k].disc) p = b.f[k].tag(); if (!p.empty()) f.push_back("prevtag=" + p); }
        ref.add_event(f, t.f[first].tag(), 1); ctx.push_back(f); outs.insert(t.f[first].tag()); ++n;
    }
    if (!n) return; ref.end_add_event(); ref.train(iter);
    { MeTagger tr("pl", true, mf, iter, "ign", "card", "name", open, text); tr.train(*d.l); tr.saveModel(mf); }
    MM m; m.load(mf); for (size_t i = 0; i < ctx.size() && i < 10; ++i) { Dist x, y; m.eval_all(ctx[i], x, true); ref.eval_all(ctx[i], y, true); std::map<std::string, double> a(x.begin(), x.end()), b(y.begin(), y.end()); close(c, a, b, 1e-4, "tagger-model", "the model the tagger trained, on a training event: "); }
    if (text) { std::string mb = mf + ".bin"; m.save(mb, true); mf = mb; }
    // tagging
    MeTagger tg("pl", false, mf, 50, "ign", "card", "name", open); tg.loadModel(mf); Doc e = doc(c, 4, false); std::vector<std::vector<std::string> > want; long tie = 0;
    for (size_t s = 0; s < e.seg.size(); ++s) { want.push_back(std::vector<std::string>()); for (size_t i = 0; i < e.seg[s].size(); ++i) {
        const Tok& t = e.seg[s][i]; std::vector<std::string> f = features(e.seg[s], i), cand; if (i) f.push_back("prevtag=" + want[s][i - 1]);
        for (size_t k = 0; k < t.f.size(); ++k) { if (t.f[k].disc) continue; if (t.f[k].pos == "ign") { if (t.w.find_first_of(".,;:?!<>%&'-\"/()[]+=_*$#@~|{}\\") != std::string::npos || rx(t.w, "\\d")) { cand.push_back("card"); cand.push_back("name"); } else cand.insert(cand.end(), open.begin(), open.end()); } else cand.push_back(t.f[k].tag()); }
        std::string best; double bp = 0; Dist all; m.eval_all(f, all, true); std::map<std::string, double> p(all.begin(), all.end());
        for (size_t k = 0; k < cand.size(); ++k) if (p.count(cand[k])) { double x = p[cand[k]]; if (x > bp) { bp = x; best = cand[k]; } }
        if (!best.empty()) { for (size_t k = 0; k < cand.size(); ++k) if (cand[k] != best && p.count(cand[k]) && p[cand[k]] > bp - 1e-9) ++tie; } else { best = all[0].first; if (all.size() > 1 && all[1].second > all[0].second - 1e-9) ++tie; }
        want[s].push_back(best); } }
    if (tie) { c.count("ties"); tg.tag(*e.l); unlink(mf.c_str()); return; }
    tg.tag(*e.l); Lattice& l = *e.l; LayerTagMask fm = l.getLayerTagManager().getMaskWithLangCode("form", "pl"); unlink(mf.c_str());
    for (size_t s = 0; s < e.seg.size(); ++s) for (size_t i = 0; i < e.seg[s].size(); ++i) {
        Tok& t = e.seg[s][i]; const std::string& tag = want[s][i]; std::string w = "token " + q(t.w) + ", tag " + tag + ": "; bool wasdisc = false; std::set<std::string> tv; { std::string x = tag; size_t p = x.find(','); while (p != std::string::npos) { size_t z = x.find(',', p + 1); tv.insert(x.substr(p + 1, z == std::string::npos ? z : z - p - 1)); p = z; } }
        int live = 0, fresh = 0; std::set<std::string> known; bool exact = false;
        for (size_t k = 0; k < t.f.size(); ++k) {
            const F& f = t.f[k]; bool disc = l.getLayerTagManager().isThere("discarded", l.getEdgeLayerTags(f.e)); known.insert(f.tag()); bool sub = f.pos == strip(tag); for (size_t z = 0; z < f.av.size(); ++z) if (!tv.count(f.av[z].first + "=" + f.av[z].second)) sub = false;
            if (f.disc) { wasdisc = wasdisc || f.tag() == tag; c.expect(disc, "undiscarded", w + "the form " + f.tag() + " had been discarded"); continue; }
            if (f.tag() == tag) { exact = true; c.expect(!disc, "discarded", w + "the form of this tag has been discarded"); } else if (!sub) c.expect(disc, "kept", w + "the form " + f.tag() + " has not been discarded"); if (!disc) ++live;
        }
        Lattice::InOutEdgesIterator it = l.outEdges(t.from, fm); std::vector<Lattice::EdgeDescriptor> now; while (it.hasNext()) now.push_back(it.next());
        for (size_t k = 0; k < now.size(); ++k) { bool old = false; for (size_t z = 0; z < t.f.size(); ++z) old = old || t.f[z].e == now[k]; if (old) continue; ++fresh;
            c.expect(!live && t.cat == "T", "added", w + "a form was added although " + (live ? "one was left" : "it is no word")); c.eq(l.getEdgeTarget(now[k]), t.to, "added-place", w + "end of the added form"); c.eq(l.getAnnotationCategory(now[k]), strip(tag), "added-category", w + "category of the added form"); c.eq(l.getAnnotationText(now[k]), t.w, "added-text", w + "text of the added form");
            std::list<std::pair<std::string, std::string> > v = l.getAnnotationItemManager().getValues(l.getEdgeAnnotationItem(now[k])); std::set<std::string> g; for (std::list<std::pair<std::string, std::string> >::iterator z = v.begin(); z != v.end(); ++z) g.insert(z->first + "=" + z->second); c.expect(g == tv, "added-attributes", w + "attributes of the added form"); c.expect(!l.getLayerTagManager().isThere("discarded", l.getEdgeLayerTags(now[k])), "added-discarded", w + "the added form is discarded");
            std::list<Lattice::Partition> ps = l.getEdgePartitions(now[k]); c.expect(!ps.empty() && l.getLayerTagManager().isThere("lexeme", l.getEdgeLayerTags(ps.front().firstEdge(l))), "added-lexeme", w + "the added form has no lexeme below"); c.count("forms added"); }
        if (t.cat == "T" && !wasdisc) c.expect(live + fresh > 0, "no-form", w + "the word is left without a form"); if (exact) c.count("tokens tagged with a form of theirs"); c.count("tokens tagged"); if (t.f.size() > 1) c.nontrivial = true;
    }
}
// the tag of a form does not depend on which attribute was met first
static void attr_order(Ctx& c) {
    std::string mf = tmp() + ".ord"; std::vector<std::string> open; Lattice::EdgeDescriptor kept;
    for (int pass = 0; pass < 2; ++pass) {
        AnnotationItemManager aim; if (pass) { AnnotationItem x("x"); aim.setValue(x, "number", "0"); }
        Lattice l(aim, "kot"); l.addSymbols(l.getFirstVertex(), l.getLastVertex()); Lattice::EdgeDescriptor t = l.addEdge(0, 3, AnnotationItem("T", StringFrag("kot")), lt(l, "token")), fe[2];
        for (int k = 0; k < (pass ? 2 : 1); ++k) {
            std::string pos = k ? "adj" : "subst"; AnnotationItem ai(pos, StringFrag("kot")); aim.setValue(ai, "case", "0"); aim.setValue(ai, "number", "1"); Lattice::EdgeSequence::Builder b1(l), b2(l), b3(l); b1.addEdge(t); b2.addEdge(l.addEdge(0, 3, AnnotationItem("word", StringFrag("kot")), lt(l, "lemma"), b1.build()));
            b3.addEdge(l.addEdge(0, 3, AnnotationItem(pos, StringFrag("kot+" + pos)), lt(l, "lexeme"), b2.build())); fe[k] = l.addEdge(0, 3, ai, lt(l, "form"), b3.build());
        }
        MeTagger m("pl", pass == 0, mf, 20, "ign", "card", "name", open); if (!pass) { m.train(l); m.saveModel(mf); continue; }
        m.loadModel(mf); std::ostringstream quiet; std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf()); m.tag(l); std::cerr.rdbuf(old);
        c.expect(quiet.str().find("unknown outcome id") == quiet.str().rfind("unknown outcome id"), "order", "the tag learned in training is unknown when the same form comes from a process that met another attribute first");
    }
    unlink(mf.c_str());
}
static AddProbe p1("attribute-order", attr_order);
void setup(const std::string&) { if (!freopen("/dev/null", "w", stdout)) throw std::runtime_error("stdout"); }
void run_case(Ctx& c) { if (c.index % 3) tagger_case(c); else model_case(c); }
}
VF_MAIN

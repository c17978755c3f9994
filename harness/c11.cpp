// C11: the JSON writer's output, read by a strict parser, against the selected annotations.
#include "iterw.hpp"
#include "jsonp.hpp"
#include "json_lattice_writer.hpp"
namespace vf {
void setup(const std::string&) {}
static void leaves(const J& v, std::vector<std::string>& o) { if (v.t == 'a') for (size_t i = 0; i < v.a.size(); ++i) leaves(v.a[i], o); else o.push_back(show(v)); }
static J item(const WItem& w, bool args) {
    J v; if (!args) { v.t = 's'; v.s = w.put(); return v; }
    v.t = 'o'; J s; s.t = 's'; s.s = w.cat; v.o.push_back(std::make_pair(std::string("category"), s)); s.s = w.text; v.o.push_back(std::make_pair(std::string("text"), s));
    J a; a.t = 'o'; for (std::map<std::string, std::string>::const_iterator i = w.av.begin(); i != w.av.end(); ++i) { s.s = i->second; a.o.push_back(std::make_pair(i->first, s)); } v.o.push_back(std::make_pair(std::string("values"), a));
    return v;
}
static J expected(const std::vector<WGroup>& g, bool grouped, bool args) {
    J top; top.t = 'a';
    for (size_t i = 0; i < g.size(); ++i) {
        J grp; grp.t = 'a'; J& to = grouped ? grp : top;
        for (size_t k = 0; k < g[i].el.size(); ++k) { if (g[i].el[k].size() == 1) to.a.push_back(item(g[i].el[k][0], args)); else { J al; al.t = 'a'; for (size_t z = 0; z < g[i].el[k].size(); ++z) al.a.push_back(item(g[i].el[k][z], args)); to.a.push_back(al); } }
        if (grouped) top.a.push_back(grp);
    }
    return top;
}
static std::string write(Lattice& l, const WOpts& o, const std::string& mask, bool args) {
    JSONLatticeWriter w(o.linear, o.noAlts, o.withBlank, mask, std::set<std::string>(o.handled.begin(), o.handled.end()), args, o.fallback);
    std::ostringstream out; w.writeLattice(l, out); return out.str();
}
void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "lattice"; RLat L; wlattice(c, L, true); long sel = 0;
    for (int k = 0; k < 3; ++k) {
        WOpts o; std::string mask; wopts(c, o, mask); bool args = r.chance(40);
        std::string out = write(L.lat, o, mask, args); c.note(q(out, 3000));
        J v; try { JP p(out); v = p.all(); } catch (JErr& e) { c.fail("invalid", "not valid JSON: " + e.m + "\n" + out); }
        c.count("documents"); bool any; std::vector<WGroup> g = expectItems(L.lat, o, any);
        J w = expected(g, !o.handled.empty(), args);
        std::vector<std::string> a, b; leaves(v, a); leaves(w, b); c.count("elements_compared", (long)b.size()); sel += b.size();
        c.expect(a == b, "elements", "elements " + show(v) + "\nwant     " + show(w));
        if (o.handled.size() < 2) c.eq(show(v), show(w), "structure", "structure");
    }
    c.nontrivial = sel >= 3;
}
static AddProbe p1("nesting-of-two-higher-order-tags", [](Ctx& c) {
    AnnotationItemManager aim; Lattice l(aim, "ab cd ef"); l.addSymbols(0, 8);
    struct { int f, t; const char* tag; } e[] = {{0, 5, "segment"}, {5, 8, "segment"}, {0, 2, "parse"}, {2, 5, "parse"}, {5, 8, "parse"}, {0, 2, "token"}, {3, 5, "token"}, {6, 8, "token"}};
    for (int i = 0; i < 8; ++i) l.addEdge(e[i].f, e[i].t, AnnotationItem("x", StringFrag(l.getAllText().substr(e[i].f, e[i].t - e[i].f))), l.getLayerTagManager().createSingletonTagCollection(e[i].tag));
    WOpts o; o.linear = o.noAlts = o.withBlank = false; o.handled.push_back("segment"); o.handled.push_back("parse");
    c.eq(write(l, o, "token", false), std::string("[[[\"ab\"],[\"cd\"]],[[\"ef\"]]]").substr(0, 0) + "[[[\"ab\"],[\"cd\"]],[[\"ef\"]]]", "x", "phrases inside sentences");
});
}
VF_MAIN

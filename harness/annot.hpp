// Views of whole lattices through the public interface, for what annotators do to them.
#ifndef VERIF_ANNOT_HPP
#define VERIF_ANNOT_HPP
#include "h.hpp"
#include "lattice.hpp"
#include "annotator.hpp"
#include "processor_factory.hpp"
#include "annotator_factory.hpp"
#include "main_factories_keeper.hpp"
#include <boost/program_options/parsers.hpp>
#include <memory>
namespace vf {
typedef std::set<std::string> TagSet;
typedef std::vector<std::string> Args;
struct PView { std::vector<Lattice::EdgeDescriptor> links; TagSet tags; double score; };
struct EView {
    Lattice::EdgeDescriptor d; bool implicit; int from, to; std::string cat, text; std::vector<std::pair<std::string, std::string> > av; TagSet tags; double score; std::vector<PView> parts;
    std::string key() const {                       // what makes it this edge and no other
        std::string s = str(from) + "-" + str(to) + " " + q(cat) + "/" + q(text); std::vector<std::pair<std::string, std::string> > a(av); std::sort(a.begin(), a.end());
        for (size_t i = 0; i < a.size(); ++i) s += " " + q(a[i].first) + "=" + q(a[i].second);
        s += " ["; for (TagSet::const_iterator i = tags.begin(); i != tags.end(); ++i) if (!i->empty() && (*i)[0] == '!') s += *i + " "; return s + "]";
    }
    std::string show() const { std::string s = key() + " {"; for (TagSet::const_iterator i = tags.begin(); i != tags.end(); ++i) s += *i + " "; return s + "}"; }
};
inline TagSet tagset(Lattice& l, const LayerTagCollection& c) { std::list<std::string> n = l.getLayerTagManager().getTagNames(c); return TagSet(n.begin(), n.end()); }
inline EView view(Lattice& l, Lattice::EdgeDescriptor d) {
    EView e; e.d = d; e.implicit = !d.isExplicit(); e.from = l.getEdgeSource(d); e.to = l.getEdgeTarget(d);
    AnnotationItem it = l.getEdgeAnnotationItem(d); e.cat = it.getCategory(); e.text = it.getText();
    std::list<std::pair<std::string, std::string> > av = l.getAnnotationItemManager().getValues(it); e.av.assign(av.begin(), av.end());
    e.tags = tagset(l, l.getEdgeLayerTags(d)); e.score = l.getEdgeScore(d);
    const std::list<Lattice::Partition>& ps = l.getEdgePartitions(d);
    for (std::list<Lattice::Partition>::const_iterator p = ps.begin(); p != ps.end(); ++p) {
        PView v; v.tags = tagset(l, p->getTagList()); v.score = p->getScore(); Lattice::Partition::Iterator pi(l, *p); while (pi.hasNext()) v.links.push_back(pi.next()); e.parts.push_back(v);
    }
    return e;
}
struct LView {
    std::string text; std::vector<EView> e; std::map<int, std::vector<int> > out, in; std::map<Lattice::EdgeDescriptor, int> id;
    int idOf(Lattice::EdgeDescriptor d) const { std::map<Lattice::EdgeDescriptor, int>::const_iterator i = id.find(d); return i == id.end() ? -1 : i->second; }
};
inline LView view(Lattice& l) {
    LView v; v.text = l.getAllText(); std::vector<int> vs; Lattice::VertexIterator vi(l, false); while (vi.hasNext()) vs.push_back(vi.next());
    for (size_t i = 0; i < vs.size(); ++i) { Lattice::InOutEdgesIterator it = l.allOutEdges(vs[i]); while (it.hasNext()) { Lattice::EdgeDescriptor d = it.next(); v.id[d] = (int)v.e.size(); v.out[vs[i]].push_back((int)v.e.size()); v.e.push_back(view(l, d)); } }
    for (size_t i = 0; i < vs.size(); ++i) { Lattice::InOutEdgesIterator it = l.allInEdges(vs[i]); while (it.hasNext()) v.in[vs[i]].push_back(v.idOf(it.next())); }
    return v;
}
// an edge that consists of itself, or -1
inline int cyclic(const LView& v) {
    std::vector<char> state(v.e.size(), 0); std::vector<std::pair<int, size_t> > st; std::vector<std::vector<int> > next(v.e.size());
    for (size_t i = 0; i < v.e.size(); ++i) for (size_t p = 0; p < v.e[i].parts.size(); ++p) for (size_t k = 0; k < v.e[i].parts[p].links.size(); ++k) { int x = v.idOf(v.e[i].parts[p].links[k]); if (x >= 0) next[i].push_back(x); }
    for (size_t r = 0; r < v.e.size(); ++r) {
        if (state[r]) continue; st.push_back(std::make_pair((int)r, (size_t)0)); state[r] = 1;
        while (!st.empty()) { int u = st.back().first; if (st.back().second == next[u].size()) { state[u] = 2; st.pop_back(); continue; } int x = next[u][st.back().second++]; if (state[x] == 1) return x; if (!state[x]) { state[x] = 1; st.push_back(std::make_pair(x, (size_t)0)); } }
    }
    return -1;
}
// every edge with its order, parts and tags, as text
inline std::vector<std::string> dump(const LView& v) {
    std::vector<std::string> o;
    for (size_t i = 0; i < v.e.size(); ++i) {
        const EView& e = v.e[i]; std::string s = e.show() + (e.implicit ? " implicit" : "") + " score " + str(e.score);
        for (size_t p = 0; p < e.parts.size(); ++p) { s += " (" + str(e.parts[p].score) + " {"; for (TagSet::const_iterator t = e.parts[p].tags.begin(); t != e.parts[p].tags.end(); ++t) s += *t + " "; s += "}"; for (size_t k = 0; k < e.parts[p].links.size(); ++k) { int x = v.idOf(e.parts[p].links[k]); s += " <" + (x < 0 ? std::string("?") : v.e[x].key()) + ">"; } s += ")"; }
        o.push_back(s);
    }
    return o;
}
inline ProcessorFactory* factory(const std::string& name) {
    std::list<ProcessorFactory*> f = MainFactoriesKeeper::getInstance().getProcessorFactoriesForName(name);
    if (f.size() != 1) throw std::runtime_error("harness: no single processor named " + name);
    return f.front();
}
inline boost::program_options::variables_map options(ProcessorFactory* f, const Args& a) {
    boost::program_options::options_description d = f->optionsHandled(); boost::program_options::variables_map m;
    boost::program_options::store(boost::program_options::command_line_parser(a).options(d).run(), m); boost::program_options::notify(m); return m;
}
struct Made { std::shared_ptr<Annotator> p; TagSet provided; std::string name; Args args; std::string show() const { std::string s = name; for (size_t i = 0; i < args.size(); ++i) s += " " + q(args[i]); return s; } };
inline Made make(const std::string& name, const Args& a) {
    ProcessorFactory* f = factory(name); boost::program_options::variables_map m = options(f, a); Made x; x.name = name; x.args = a;
    Processor* p = f->createProcessor(m); x.p.reset(dynamic_cast<Annotator*>(p)); if (!x.p) throw std::runtime_error("harness: no annotator: " + name);
    std::list<std::string> t = dynamic_cast<AnnotatorFactory&>(*f).providedLayerTags(m); x.provided.insert(t.begin(), t.end()); return x;
}
}
#endif

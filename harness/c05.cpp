// C05: StringFrag against std::string as the reference model.
#include "h.hpp"
#include "string_frag.hpp"
#include <deque>
#include <memory>
namespace vf {
void setup(const std::string&) {}
struct M { std::unique_ptr<StringFrag> f; std::string m; };

static void check(Ctx& c, M& x, Rng& r, const char* after) {
    StringFrag& f = *x.f; const std::string& m = x.m;
    std::string a = std::string(" after ") + after + " of " + q(m);
    c.expect(f.str() == m, "str", "str()" + a + " is " + q(f.str()));
    c.expect(f.length() == m.size(), "length", "length()" + a + " is " + vf::str(f.length()));
    c.expect(std::string(f.data(), f.length()) == m, "data", "data()" + a + " differs");
    for (int k = 0; k < 3; ++k) {
        size_t pos = r.below(m.size() + 3);
        char ch = m.empty() || r.chance(40) ? (char)"ab \n\xc4"[r.below(5)] : m[r.below(m.size())];
        size_t got = f.find(ch, pos), want = m.find(ch, pos);
        c.expect(got == want, "find", "find(" + q(std::string(1, ch)) + "," + vf::str(pos) + ")" + a + ": got " + vf::str(got) + " want " + vf::str(want));
    }
    if (!m.empty()) {
        size_t pos = r.below(m.size());
        c.expect(f[pos] == m[pos], "index", "operator[]" + a);
    }
    size_t pos = r.below(m.size() + 2), n = r.chance(30) ? std::string::npos : r.below(m.size() + 3);
    std::string got, want; bool t1 = false, t2 = false;
    try { got = f.substr(pos, n); } catch (std::out_of_range&) { t1 = true; }
    try { want = m.substr(pos, n); } catch (std::out_of_range&) { t2 = true; }
    c.expect(t1 == t2 && got == want, "substr", "substr(" + vf::str(pos) + "," + vf::str(n) + ")" + a + ": got " + q(got) + " want " + q(want));
}

void run_case(Ctx& c) {
    Rng& r = c.r;
    c.kind = "ops";
    std::deque<std::string> src;                       // sources outlive every fragment and may grow
    for (int i = 0, n = r.range(1, 3); i < n; ++i) {
        if (r.chance(30)) { std::string s; for (int k = r.size(30); k > 0; --k) s += "ab"[r.below(2)]; src.push_back(s); }
        else if (r.chance(20)) src.push_back(rand_bytes(r, 40));
        else src.push_back(rand_text(r, 40));
    }
    if (src.size() > 1 && r.chance(20)) src.back() = src[0];    // equal contents, different objects
    std::vector<M> fr;
    std::vector<std::pair<int, std::pair<size_t, size_t> > > ranges;
    int ops = r.range(3, 25), changed = 0;
    for (int o = 0; o < ops; ++o) {
        int k = fr.empty() ? r.range(0, 2) : r.range(0, 9);
        std::ostringstream d;
        switch (k) {
            case 0: case 1: {                           // fragment of a source; often adjacent to an earlier one
                size_t si = r.below(src.size()), b = r.below(src[si].size() + 1), l = r.below(src[si].size() - b + 1);
                if (!ranges.empty() && r.chance(50)) { si = ranges.back().first; b = ranges.back().second.first + ranges.back().second.second; l = r.below(src[si].size() - b + 1); }
                if (r.chance(15)) l = src[si].size() - b;
                M x; x.f.reset(new StringFrag(src[si], b, l)); x.m = src[si].substr(b, l);
                ranges.push_back(std::make_pair((int)si, std::make_pair(b, l)));
                d << "frag " << si << " " << q(src[si]) << " " << b << "+" << l;
                fr.push_back(std::move(x)); check(c, fr.back(), r, "fragment()");
                break;
            }
            case 2: {
                M x; std::string s = r.chance(20) ? "" : rand_text(r, 12);
                if (r.chance(30)) { x.f.reset(new StringFrag()); s = ""; } else x.f.reset(new StringFrag(s));
                x.m = s; d << "own " << q(s);
                fr.push_back(std::move(x)); check(c, fr.back(), r, "owned()");
                break;
            }
            case 3: {                                   // sub-fragment
                size_t i = r.below(fr.size()), b = r.below(fr[i].m.size() + 1), l = r.below(fr[i].m.size() - b + 1);
                M x; x.f.reset(new StringFrag(*fr[i].f, b, l)); x.m = fr[i].m.substr(b, l);
                d << "sub #" << i << " " << b << "+" << l;
                // a sub-fragment may share the parent's storage, so use it while the parent is alive
                check(c, x, r, "sub-fragment()"); ++changed;
                break;
            }
            case 4: {
                size_t i = r.below(fr.size()); M x; x.f.reset(new StringFrag(*fr[i].f)); x.m = fr[i].m;
                d << "copy #" << i; fr.push_back(std::move(x)); check(c, fr.back(), r, "copy"); ++changed;
                break;
            }
            case 5: {
                size_t i = r.below(fr.size()), j = r.below(fr.size());
                *fr[i].f = *fr[j].f; fr[i].m = fr[j].m; d << "assign #" << i << " = #" << j;
                check(c, fr[i], r, "assignment"); check(c, fr[j], r, "assignment (right side)"); ++changed;
                break;
            }
            case 6: case 7: {
                size_t i = r.below(fr.size()), j = r.chance(60) && i + 1 < fr.size() ? i + 1 : r.below(fr.size());
                d << "append #" << i << " += #" << j << " (" << q(fr[i].m) << " += " << q(fr[j].m) << ")";
                if (i == j) { std::string m = fr[i].m; fr[i].f->append(*fr[j].f); fr[i].m = m + m; }
                else { fr[i].f->append(*fr[j].f); fr[i].m += fr[j].m; }
                c.note(d.str()); d.str("-");
                check(c, fr[i], r, "append"); check(c, fr[j], r, "append (argument)"); ++changed;
                break;
            }
            case 8: {                                   // the source text grows, as Lattice::appendString makes it
                size_t si = r.below(src.size()); std::string add = rand_text(r, 60); src[si] += add; d << "grow " << si << " by " << q(add);
                for (size_t i = 0; i < fr.size(); ++i) check(c, fr[i], r, "growth of the source");
                break;
            }
            default: {
                size_t i = r.below(fr.size()); d << "drop #" << i; fr.erase(fr.begin() + i);
                for (size_t j = 0; j < fr.size(); ++j) check(c, fr[j], r, "destruction of another fragment");
            }
        }
        if (d.str() != "-") c.note(d.str());
    }
    for (size_t i = 0; i < fr.size(); ++i) check(c, fr[i], r, "all operations");
    c.count("operations", ops);
    c.nontrivial = changed > 0;
}
}
VF_MAIN

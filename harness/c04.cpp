// C04: annotation items against a plain record of category, text and attribute values.
#include "h.hpp"
#include "annotation_item_manager.hpp"
#include <climits>
namespace vf {
void setup(const std::string&) {}
struct V { enum { S, I, FAIL, ANY } k; std::string s; int i; bool operator==(const V& o) const { return k == o.k && s == o.s && i == o.i; } V() : k(S), i(0) {} };
struct Rec { std::string cat, text; std::map<std::string, V> av; bool operator==(const Rec& o) const { return cat == o.cat && text == o.text && av == o.av; } };
static V fromString(const std::string& s) {         // as documented: numbers become numbers, fail/false/empty and any/nil are special
    V v; size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i;
    size_t b = i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
    size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
    if (i > d && i == s.size()) { errno = 0; long long x = strtoll(s.c_str() + b, 0, 10); if (errno == 0 && x >= INT_MIN && x <= INT_MAX) { v.k = V::I; v.i = (int)x; return v; } }
    if (s == "fail" || s == "false" || s == "empty") { v.k = V::FAIL; return v; }
    if (s == "any" || s == "nil") { v.k = V::ANY; return v; }
    v.s = s; return v;
}
static std::string show(const V& v) { return v.k == V::S ? v.s : v.k == V::I ? vf::str(v.i) : v.k == V::FAIL ? "fail" : "nil"; }
static void check(Ctx& c, AnnotationItemManager& m, AnnotationItem& it, const Rec& x, const std::vector<std::string>& names, const std::vector<std::string>& reg) {
    std::string w = "item " + q(x.cat) + "/" + q(x.text) + ": ";
    c.eq(it.getCategory(), x.cat, "category", w + "category"); c.eq(m.getCategory(it), x.cat, "category", w + "category");
    c.eq(it.getText(), x.text, "text", w + "text"); c.eq(it.getTextAsStringFrag().str(), x.text, "text", w + "text fragment");
    for (int k = 0; k < 4; ++k) {
        const std::string& n = names[c.r.below(names.size())];
        std::map<std::string, V>::const_iterator f = x.av.find(n);
        zvalue z = m.getValue(it, n);
        if (f == x.av.end()) { c.expect(NULLP(z) && m.is_false(z), "missing", w + "an attribute never set has a value: " + n); c.eq(m.getValueAsString(it, n), std::string("fail"), "missing", w + "missing value"); continue; }
        const V& v = f->second;
        c.eq(m.getValueAsString(it, n), show(v), "value", w + "value of " + q(n));
        c.eq(m.is_int(z) != 0, v.k == V::I, "value-kind", w + "kind of " + q(n)); c.eq(m.is_false(z) != 0, v.k == V::FAIL, "value-kind", w + "kind of " + q(n)); c.eq(m.is_any(z) != 0, v.k == V::ANY, "value-kind", w + "kind of " + q(n));
        if (v.k == V::I) c.eq(m.to_int(z), v.i, "value-int", w + "integer of " + q(n));
        if (v.k == V::S) { c.eq(m.zvalueToString(z), v.s, "value", w + "string of " + q(n)); c.expect(m.stringToZvalue(v.s) == z, "interning", w + "the same string has two values"); }
    }
    std::list<std::pair<std::string, std::string> > l = m.getValues(it); std::vector<std::string> want;
    for (size_t i = 0; i < reg.size(); ++i) if (x.av.count(reg[i])) want.push_back(reg[i]);
    c.eq(l.size(), want.size(), "list", w + "number of attributes");
    size_t i = 0; for (std::list<std::pair<std::string, std::string> >::iterator p = l.begin(); p != l.end(); ++p, ++i) { c.eq(p->first, want[i], "list", w + "attribute"); c.eq(p->second, show(x.av.find(want[i])->second), "list", w + "value of " + q(want[i])); }
    std::map<std::string, std::string> am = m.getAVMap(it); c.eq(am.size(), want.size(), "map", w + "map of attributes");
    for (std::map<std::string, std::string>::iterator p = am.begin(); p != am.end(); ++p) c.expect(x.av.count(p->first) && show(x.av.find(p->first)->second) == p->second, "map", w + "map of attributes at " + q(p->first));
}
static std::string str0(Rng& r, int n) { std::string s = r.chance(25) ? rand_bytes(r, n) : rand_text(r, n), o; for (size_t i = 0; i < s.size(); ++i) if (s[i]) o += s[i]; return o; }
void run_case(Ctx& c) {
    Rng& r = c.r; c.kind = "items";
    AnnotationItemManager m; std::vector<std::string> names, reg;
    int nn = r.chance(15) ? 128 : r.range(1, 12);
    std::set<std::string> u; while ((int)u.size() < nn) { std::string s = r.chance(60) ? rand_word(r, 4) : str0(r, 4); if (nn > 50) s += vf::str(u.size()); u.insert(s); }
    names.assign(u.begin(), u.end());
    std::vector<AnnotationItem> it; std::vector<Rec> rec;
    int ops = c.thorough ? r.range(5, 60) : r.range(5, 30), writes = 0;
    for (int o = 0; o < ops; ++o) {
        int k = it.empty() ? 0 : r.range(0, 11);
        if (k <= 1) {
            Rec x; x.cat = str0(r, 5); x.text = r.chance(40) ? "" : str0(r, 8);
            if (r.chance(50)) { x.cat = "N"; x.text = ""; }
            if (x.text.empty() && r.chance(50)) it.push_back(AnnotationItem(x.cat)); else it.push_back(AnnotationItem(x.cat, StringFrag(x.text)));
            rec.push_back(x); c.note("item " + q(x.cat) + "/" + q(x.text));
        } else if (k == 2) { size_t i = r.below(it.size()); c.note("copy #" + vf::str(i)); AnnotationItem a(it[i]); Rec b = rec[i]; it.push_back(a); rec.push_back(b); }
        else if (k == 3) {
            size_t i = r.below(it.size()); Rec b = rec[i]; std::string nc = str0(r, 4), nt = str0(r, 4);
            switch (r.range(0, 3)) {
                case 0: { AnnotationItem a(it[i], nc); b.cat = nc; it.push_back(a); break; }
                case 1: { AnnotationItem a(it[i], nc, StringFrag(nt)); b.cat = nc; b.text = nt; it.push_back(a); break; }
                case 2: { AnnotationItem a(it[i], StringFrag(nt)); b.text = nt; it.push_back(a); break; }
                default: { AnnotationItem a(it[i]); m.setCategory(a, nc); b.cat = nc; it.push_back(a); }
            }
            rec.push_back(b); c.note("derive #" + vf::str(i) + " " + q(b.cat) + "/" + q(b.text));
        } else if (k == 4 && it.size() > 1) {
            size_t i = r.below(it.size()), j = r.below(it.size()); c.note("addValues #" + vf::str(i) + " from #" + vf::str(j));
            m.addValues(it[i], it[j]); std::map<std::string, V> av = rec[j].av; for (std::map<std::string, V>::iterator p = av.begin(); p != av.end(); ++p) rec[i].av[p->first] = p->second;
        } else {
            size_t i = r.below(it.size()); std::string n = r.pick(names); V v; std::string s;
            if (std::find(reg.begin(), reg.end(), n) == reg.end()) reg.push_back(n);
            int h = r.range(0, 9);
            if (h == 0) { int x = r.chance(40) ? (int)r.next() : r.chance(30) ? (r.chance(50) ? INT_MAX : INT_MIN) : r.range(-9, 9); v.k = V::I; v.i = x; m.setValue(it[i], n, x); s = vf::str(x); }
            else if (h == 1) { bool b = r.chance(50); v.k = b ? V::ANY : V::FAIL; m.setValue(it[i], n, m.from_bool(b)); s = b ? "true" : "false"; }
            else if (h == 2) { s = str0(r, 6); v.s = s; m.setStringValue(it[i], n, s); }
            else {
                static const char* sp[] = {"fail", "false", "empty", "any", "nil", "", "7", "-7", "+7", "2147483647", "2147483648", "-2147483648", "7a", "7 ", "NULL_ZVALUE", "UNKNOWN_ZVALUE", "a,b=c", "failx", "0x10", "1.5", "-", "99999999999999999999"};
                s = r.chance(30) ? sp[r.below(22)] : r.chance(50) ? std::string(1, "abc"[r.below(3)]) : str0(r, 6);
                v = fromString(s); m.setValue(it[i], n, s);
            }
            rec[i].av[n] = v; ++writes; c.note("#" + vf::str(i) + "." + q(n) + " = " + q(s));
        }
        for (int z = 0; z < 2; ++z) { size_t i = r.below(it.size()); check(c, m, it[i], rec[i], names, reg); }
    }
    for (size_t i = 0; i < it.size(); ++i) {
        check(c, m, it[i], rec[i], names, reg);
        for (size_t j = 0; j < it.size(); ++j) {
            bool e = rec[i] == rec[j];
            if ((it[i] == it[j]) != e) c.fail("equality", "items #" + vf::str(i) + " and #" + vf::str(j) + (e ? " are the same but not equal" : " differ but are equal"));
            if ((it[i] != it[j]) == e) c.fail("equality", "operator!= of items #" + vf::str(i) + " and #" + vf::str(j));
            if (e && it[i].getHash() != it[j].getHash()) c.fail("hash", "hashes of equal items differ");
            c.count("pairs_compared");
        }
    }
    c.nontrivial = writes > 0;
}
static void many(Ctx& c) {                          // the 129th attribute is refused and harms nothing
    AnnotationItemManager m; AnnotationItem a("N"); bool thrown = false;
    for (int i = 0; i < 128; ++i) m.setValue(a, "a" + vf::str(i), "v" + vf::str(i));
    try { m.setValue(a, "a128", "x"); } catch (std::exception&) { thrown = true; }
    c.expect(thrown, "many-attributes", "a 129th attribute is accepted");
    for (int i = 0; i < 128; ++i) c.eq(m.getValueAsString(a, "a" + vf::str(i)), "v" + vf::str(i), "many-attributes", "value");
    c.eq(m.getValues(a).size(), (size_t)128, "many-attributes", "number of attributes");
    c.eq(m.getValueAsString(a, "a128"), std::string("fail"), "many-attributes", "refused attribute");
}
static AddProbe p1("many-attributes", many);
}
VF_MAIN

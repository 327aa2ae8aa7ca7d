#include <common/json_types.hpp>
using namespace pbt; using namespace jt; namespace rf = HX::reflection;

// parse from a buffer that ends exactly where the text ends (ASan sees any read beyond it)
template <typename T> static bool tryRead(T& r, std::string const& s, std::string* what = nullptr) {
    std::unique_ptr<char[]> buf(new char[s.size() + (s.empty() ? 1 : 0)]);
    std::memcpy(buf.get(), s.data(), s.size());
    try { rf::fromJson(r, std::string_view{buf.get(), s.size()}); return true; }
    catch (std::exception& e) { if (what) *what = e.what(); return false; }
}
template <typename T> static void spellings(Gen& g) {
    T v{}; make(g, v);
    std::string t; jref::spell(dom(v), g, t);
    g.describe(t); g.nontrivial(t.size() > 30);
    { jref::Node n; std::string err; if (!jref::parse(t, n, err)) PBT_FAIL("harness produced invalid JSON " << err << " " << quote(t)); }
    T r{}; std::string what; if (g.chance(1, 3)) { make(g, r); g.label("target held something"); }        // a matching type, whatever it held
    PBT_CHECK(tryRead(r, t, &what), "valid document refused (" << what << "): " << quote(t, 1500));
    jref::Node got = dom(r), exp = dom(v); std::string a;
    PBT_CHECK(r == v, "document read as another value: " << quote(t, 1500));
}
template <typename T> static void truncated(Gen& g) {
    T v{}; make(g, v);
    std::string t; 
    if (g.boolean()) jref::spell(dom(v), g, t); else rf::toJson(v, t);
    while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
    std::size_t cut = t.empty() ? 0 : g.draw(t.size());
    if (g.chance(1, 3) && t.size() > 4) cut = t.size() - 1 - g.draw(4);
    std::string h = t.substr(0, cut);
    g.describe("truncated at " + std::to_string(cut) + "/" + std::to_string(t.size()) + ": " + h); g.nontrivial(cut > 5);
    T r{};
    PBT_CHECK(!tryRead(r, h), "truncated document accepted: " << quote(h, 1500));
}
// ---- a document whose shape does not match the type
static std::vector<jref::Node*> nodes(jref::Node& n) {
    std::vector<jref::Node*> r{&n};
    for (auto& c : n.a) { auto x = nodes(c); r.insert(r.end(), x.begin(), x.end()); }
    for (auto& c : n.o) { auto x = nodes(c.second); r.insert(r.end(), x.begin(), x.end()); }
    return r;
}
template <typename T> static void mismatch(Gen& g) {
    T v{}; make(g, v);
    jref::Node d = dom(v); auto ns = nodes(d);
    std::string what;
    switch (g.draw(3)) {
    case 0: {   // replace a value by one of another kind
        jref::Node* n = ns[g.draw(ns.size())];
        if (n->k == jref::Node::Null) discard();            // an absent optional may hold anything
        jref::Node r; int k = (int)g.draw(5);
        switch (k) {
        case 0: if (n->k == jref::Node::Str) discard(); r = jref::Node::str(text(g)); break;
        case 1: if (n->k == jref::Node::Num || n->k == jref::Node::Bool) discard(); r = jref::Node::integer("12"); break;
        case 2: if (n->k == jref::Node::Arr) discard(); r = jref::Node::arr(); r.a.push_back(jref::Node::integer("1")); break;
        case 3: if (n->k == jref::Node::Obj) discard(); r = jref::Node::obj(); break;
        case 4: if (n->k == jref::Node::Bool) discard(); r = jref::Node::boolean(g.boolean()); break;
        }
        what = "kind " + std::to_string(n->k) + " replaced by " + std::to_string(r.k); *n = r; break; }
    case 1: {   // integer out of range or not an integer
        std::vector<jref::Node*> c; for (auto* n : ns) if (n->k == jref::Node::Num && n->fl == 0) c.push_back(n);
        if (c.empty()) discard();
        c[g.draw(c.size())]->s = g.oneof<std::string>({"18446744073709551616", "-9223372036854775809", "99999999999999999999999", "1.5", "1e400000", "--1", "1-2", "+"});
        what = "bad number"; break; }
    case 2: {   // an unknown member name or enum name
        std::vector<jref::Node*> c; for (auto* n : ns) if (n->k == jref::Node::Obj && !n->o.empty()) c.push_back(n);
        jref::Node* n = &d;                                  // the root is always an aggregate
        auto& m = n->o[g.draw(n->o.size())]; std::string old = m.first;
        std::string k = text(g, 8); if (k == old) discard();
        for (auto& o : n->o) if (o.first == k) discard();
        m.first = k; what = "member renamed to " + quote(k); break; }
    }
    std::string t; jref::spell(d, g, t);
    g.describe(what + ": " + t); g.nontrivial(); g.label(what.substr(0, 10));
    T r{}; PBT_CHECK(!tryRead(r, t), "document of another shape accepted (" << what << "): " << quote(t, 1500));
}
// ---- structural character dropped, doubled or replaced
template <typename T> static void structure(Gen& g) {
    T v{}; make(g, v); std::string t; rf::toJson(v, t);
    std::vector<std::size_t> pos; bool in = false;
    for (std::size_t i = 0; i < t.size(); ++i) { if (in) { if (t[i] == '\\') ++i; else if (t[i] == '"') in = false; } else if (t[i] == '"') in = true; else if (std::strchr("{}[]:,", t[i])) pos.push_back(i); }
    if (pos.empty()) discard();
    std::size_t p = pos[g.draw(pos.size())]; char was = t[p]; std::string what;
    switch (g.draw(3)) {
    case 0: t.erase(p, 1); what = "dropped"; break;
    case 1: t.insert(p, 1, was); what = "doubled"; break;
    case 2: { char c = g.pick(std::string("{}[]:,")); if (c == was) discard(); t[p] = c; what = std::string("replaced by ") + c; break; }
    }
    jref::Node n; std::string err; if (jref::parse(t, n, err)) discard();
    auto numeral = [](char c) { return c && std::strchr("0123456789+-.eE", c) != nullptr; };
    if (p > 0 && numeral(t[p - 1]) && numeral(t[p])) discard();   // two numerals merged into one: lenient numerals are outside the property
    if (p + 2 >= t.size()) discard();     // a change after the end of the root value is trailing text
    g.describe(std::string("'") + was + "' " + what + ": " + t); g.nontrivial();
    T r{};
    // text after a complete root value is not inspected by the reader: a prefix that is a whole document may be accepted
    for (std::size_t k = t.size(); k-- > 1;) if (t[k] == '}') { jref::Node q; std::string e; if (jref::parse(std::string_view(t).substr(0, k + 1), q, e)) discard(); }
    PBT_CHECK(!tryRead(r, t), "malformed document accepted ('" << was << "' " << what << "): " << quote(t, 1500));
}
// ---- a literal misspelt, a surrogate without its partner, a \\u escape that is not hexadecimal
template <typename T> static void tokens(Gen& g) {
    T v{}; make(g, v); std::string t; jref::spell(dom(v), g, t); struct Spot { std::size_t at, len; bool esc; }; std::vector<Spot> spots; bool in = false;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (in) { if (t[i] == '\\') { if (t[i + 1] == 'u') { spots.push_back({i, 6, true}); i += 5; } else ++i; } else if (t[i] == '"') in = false; }
        else if (t[i] == '"') in = true; else if (t[i] == 't' || t[i] == 'n') { spots.push_back({i, 4, false}); i += 3; } else if (t[i] == 'f') { spots.push_back({i, 5, false}); i += 4; }
    }
    if (spots.empty()) discard();
    auto p = spots[g.draw(spots.size())]; std::string what;
    if (!p.esc) { std::string ok = t.substr(p.at, p.len); auto k = g.draw(p.len); char c = (char)g.oneof<unsigned>({(unsigned)g.draw(26) + 'a', 'u', 'l', 'e', '1', ' '}); if (c == ok[k]) discard(); what = "literal misspelt"; t[p.at + k] = c; }
    else switch (g.draw(3)) {
        case 0: { char c = g.pick(std::string("gGxX/:@`{ -+\"\\")); t[p.at + 2 + g.draw(4)] = c; what = "not hexadecimal"; break; }
        case 1: { char b[8]; std::snprintf(b, sizeof b, "\\u%04X", (unsigned)g.range(0xD800, 0xDBFF)); std::string next = g.oneof<std::string>({"", "x", "\\n", "\\u0041", "\\uD7FF", "\\uE000", "\\uFFFF", "\\u0000", "\\uDBFF", "\\uDB99", "\\udbff\\udc00"}); t.replace(p.at, 6, b + next); what = "lead surrogate, then " + next; break; }
        default: { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", (unsigned)g.range(0xDC00, 0xDFFF)); t.replace(p.at, 6, b); what = "trail surrogate alone"; break; }
    }
    jref::Node n; std::string err; if (jref::parse(t, n, err)) discard();
    g.describe(what + ": " + t); g.nontrivial(); g.label(what.substr(0, 9));
    T r{}; PBT_CHECK(!tryRead(r, t), "damaged token accepted (" << what << "): " << quote(t, 1500));
}
// ---- arbitrary damage: no memory error, no endless work (the engine sees crashes and hangs)
template <typename T> static void garbage(Gen& g) {
    std::string t;
    if (g.chance(1, 4)) t = g.str("{}[]\",:ntfe0123456789.-+\\u \nabcdR", g.size(60));
    else { T v{}; make(g, v); jref::spell(dom(v), g, t); }
    int ops = (int)g.draw(6);
    for (int i = 0; i < ops && !t.empty(); ++i) { std::size_t p = g.draw(t.size());
        switch (g.draw(5)) { case 0: t[p] = char(g.draw(256)); break; case 1: t.erase(p, 1 + g.draw(4)); break; case 2: t.insert(p, 1, g.pick(std::string("{}[]\",:\\un0-e."))); break;
            case 3: t.resize(p); break; case 4: t += t.substr(p, g.draw(20)); break; } }
    g.describe("garbage " + t); g.nontrivial(t.size() > 3);
    T r{}; bool ok = tryRead(r, t); g.label(ok ? "accepted" : "refused");
}
template <void (*...F)(Gen&)> static void any(Gen& g) { static void (*f[])(Gen&) = {F...}; f[g.draw(sizeof...(F))](g); }
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "R02",
        .rule = "documents spelled at random (whitespace, member order, escapes, surrogate pairs, float notation) from generated values of 8 aggregate types; every kind of truncation, shape mismatch, structural damage and byte damage; non-trivial: document longer than 30 bytes, cut beyond 5, or actually damaged",
        .assumptions = {"text after a complete root value, numerals with leading zeros or bare dots, case variants of literals, numerals as booleans and duplicate members are outside the property"}},
        {{"spellings", any<spellings<Nums>, spellings<Leaf>, spellings<Cont>, spellings<Maps>, spellings<Opts>, spellings<Mix>, spellings<Deep>, spellings<Dflt>>, 50000, 2000000},
         {"truncated", any<truncated<Nums>, truncated<Leaf>, truncated<Cont>, truncated<Maps>, truncated<Opts>, truncated<Mix>, truncated<Deep>, truncated<Dflt>>, 50000, 2000000},
         {"mismatch", any<mismatch<Nums>, mismatch<Leaf>, mismatch<Cont>, mismatch<Opts>, mismatch<Mix>>, 50000, 2000000},
         {"structure", any<structure<Nums>, structure<Leaf>, structure<Cont>, structure<Maps>, structure<Opts>, structure<Mix>, structure<Mix>, structure<Dflt>>, 50000, 2000000},
         {"tokens", any<tokens<Nums>, tokens<Leaf>, tokens<Cont>, tokens<Opts>, tokens<Mix>, tokens<Deep>, tokens<Dflt>>, 50000, 2000000},
         {"garbage", any<garbage<Nums>, garbage<Cont>, garbage<Maps>, garbage<Opts>, garbage<Mix>, garbage<Deep>>, 80000, 4000000}});
}

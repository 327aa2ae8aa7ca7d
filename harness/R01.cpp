#include <common/json_types.hpp>
using namespace pbt; using namespace jt; namespace rf = HX::reflection;

struct Vars { std::variant<int, std::string, double, std::monostate> v; std::variant<Leaf, std::vector<int>> w; std::vector<std::variant<bool, std::string>> l; std::tuple<> none; };
template <typename F> void members(Vars& x, F f) { f("v", x.v); f("w", x.w); f("l", x.l); f("none", x.none); }

template <typename T> static void denotes(T const& v, std::string const& json) {
    jref::Node n; std::string err, why;
    PBT_CHECK(jref::parse(json, n, err), "output is not valid JSON (" << err << "): " << quote(json));
    PBT_CHECK(jref::same(dom(v), n, "$", why), "output denotes another value (" << why << "): " << quote(json));
}
template <typename T> static void rt(Gen& g) {
    T v{}; make(g, v);
    std::string json; rf::toJson(v, json);
    g.describe(json); g.nontrivial(json.size() > 30);
    denotes(v, json);
    // the exact bytes, without anything beyond them being readable as JSON
    std::vector<char> exact(json.begin(), json.end());
    T r{};
    try { rf::fromJson(r, std::string_view{exact.data(), exact.size()}); }
    catch (std::exception& e) { PBT_FAIL("reading back failed: " << e.what() << " for " << quote(json)); }
    PBT_CHECK(r == v, "reading back yields another value for " << quote(json));
    std::string again; rf::toJson(r, again);
    if constexpr (!std::is_same_v<T, Maps> && !std::is_same_v<T, Dflt> && !std::is_same_v<T, Deep>) PBT_EQ(again, json, "second serialisation");
    std::string pre = "prefix"; rf::toJson(v, pre);
    PBT_EQ(pre, "prefix" + json, "serialising appends to the given string");
}
static void pick(Gen& g) {
    switch (g.draw(9)) { case 8: return rt<Dflt>(g); case 0: return rt<Nums>(g); case 1: return rt<Leaf>(g); case 2: return rt<Cont>(g); case 3: return rt<Maps>(g);
        case 4: return rt<Opts>(g); case 5: return rt<Mix>(g); case 6: return rt<One>(g); default: return rt<Deep>(g); }
}
template <typename T> static void rootOnly(Gen& g) {
    T v{}; make(g, v); std::string json; rf::toJson(v, json); g.describe("root " + json); g.nontrivial(json.size() > 4);
    denotes(v, json); T r{}; rf::fromJson(r, std::string_view(json)); PBT_CHECK(r == v, "reading back yields another value for " << quote(json));
}
static void roots(Gen& g) {
    switch (g.draw(12)) { case 0: return rootOnly<int>(g); case 1: return rootOnly<double>(g); case 2: return rootOnly<std::string>(g); case 3: return rootOnly<std::vector<Leaf>>(g);
        case 4: return rootOnly<std::map<std::string, std::string>>(g); case 5: return rootOnly<std::tuple<int, std::string, std::vector<int>>>(g);
        case 6: return rootOnly<std::optional<Leaf>>(g); case 7: return rootOnly<bool>(g); case 8: return rootOnly<float>(g); case 9: return rootOnly<std::uint64_t>(g);
        case 10: return rootOnly<std::vector<std::optional<std::string>>>(g); default: return rootOnly<Color>(g); }
}
static void writeOnly(Gen& g) {
    Vars v; make(g, v); std::string json; rf::toJson(v, json); g.describe("variants " + json); g.nontrivial();
    denotes(v, json);
}
static void badText(Gen& g) {       // strings that are not UTF-8: refused, or escaped into something valid - never garbage
    std::string s = g.bytes(g.size(12)); 
    switch (g.draw(4)) { case 0: break; case 1: s = text(g) + s.substr(0, 3); break;
    default: { // one sequence at the edge of what is allowed: the lead bytes and second bytes where a rule changes
        std::string q(1, (char)g.oneof<unsigned>({0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff}));
        q += (char)g.oneof<unsigned>({0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0x41}); for (auto n = g.draw(4); n--;) q += (char)g.oneof<unsigned>({0x80, 0xbf, 0x80, 0xbf, 0x9a, 0x41, 0xc0, 0x7f}); s = text(g, 3) + q + text(g, 3); break; } }
    std::vector<char> exact(s.begin(), s.end());
    std::string_view sv{exact.data(), exact.size()};
    g.describe("bytes " + quote(s)); std::vector<unsigned> cp; bool valid = jref::codepoints(s, cp);
    g.nontrivial(!valid); g.label(valid ? "utf8" : "not utf8");
    std::string json; bool threw = false;
    try { rf::toJson(sv, json); } catch (std::exception&) { threw = true; }
    PBT_CHECK(!(valid && threw), "valid text refused: " << quote(s));
    if (!threw) { jref::Node n; std::string err; PBT_CHECK(jref::parse(json, n, err), "output is not valid JSON (" << err << "): " << quote(json));
        if (valid) PBT_EQ(n.s, s, "text"); else PBT_FAIL("text that is not UTF-8 was written as " << quote(json)); }
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "R01",
        .rule = "values of 9 nested aggregate types and 12 other root types (all container, optional, pointer, enum, tuple, variant and number kinds; any Unicode text as values and keys; finite floats); non-trivial: JSON text longer than 30 bytes (4 for scalar roots)",
        .assumptions = {"the strict RFC 8259 parser in harness/common/json_ref.hpp is the reference"}},
        {{"aggregates", pick, 60000, 2000000}, {"roots", roots, 60000, 2000000}, {"variants", writeOnly, 30000, 800000}, {"badText", badText, 60000, 2000000}});
}

#include <common/json_types.hpp>
#include <HXLibs/log/serialize/ToString.hpp>
#include <HXLibs/log/serialize/FormatString.hpp>
#include <chrono>
#include <filesystem>
#include <set>
#include <sstream>
#include <thread>
#include <format>
#include <span>
// technique: property-based testing: generated values rendered by the library, compared with an independent reference renderer (differential), string form against stream form
using namespace pbt; using namespace jt; namespace L = HX::log;

struct Pt { int x; double y; Pt(int a, double b) : x(a), y(b) {} };
namespace HX::log {
template <> struct CustomToString<Pt, internal::FormatZipString> { internal::FormatZipString* self;
    std::string make(Pt const& p) { return "<" + self->make(p.x) + "|" + self->make(p.y) + ">"; }
    template <typename S> void make(Pt const& p, S& s) { s.append("<"); self->make(p.x, s); s.append("|"); self->make(p.y, s); s.append(">"); } };
}
using Var = std::variant<std::monostate, int, std::string, std::vector<double>, Leaf>;
struct Misc { std::pair<int, std::string> p; std::vector<std::pair<std::string, double>> vp; std::tuple<> t0; std::tuple<int> t1; std::tuple<std::string, int, std::vector<int>> t3; Var var; std::set<int> set; std::map<int, Leaf> ml;
    std::map<std::string, std::map<std::string, int>> mm; std::vector<Var> vars; std::chrono::seconds sec{}; std::chrono::milliseconds ms{}; std::optional<std::optional<int>> oo; std::vector<std::shared_ptr<Leaf>> ptrs; std::nullptr_t nul{}; };
struct Empty {};
struct Nest { Misc misc; std::vector<Misc> more; std::map<std::string, Misc> by; };
struct Big { int a1{}, b22{}; std::string c_c; bool d{}; char e{'x'}; unsigned char f{}; long g{}; std::vector<Empty> i; Color j{}; int k[3]{}; float l{}; };
template <typename F> void mem(Misc const& x, F f) { f("p", x.p); f("vp", x.vp); f("t0", x.t0); f("t1", x.t1); f("t3", x.t3); f("var", x.var); f("set", x.set); f("ml", x.ml); f("mm", x.mm); f("vars", x.vars); f("sec", x.sec); f("ms", x.ms); f("oo", x.oo); f("ptrs", x.ptrs); f("nul", x.nul); }
template <typename F> void mem(Empty const&, F) {}
template <typename F> void mem(Nest const& x, F f) { f("misc", x.misc); f("more", x.more); f("by", x.by); }
template <typename F> void mem(Big const& x, F f) { f("a1", x.a1); f("b22", x.b22); f("c_c", x.c_c); f("d", x.d); f("e", x.e); f("f", x.f); f("g", x.g); f("i", x.i); f("j", x.j); f("k", x.k); f("l", x.l); }
template <typename T, typename F> void mem(T const& x, F f) { members(const_cast<T&>(x), f); }
template <typename T> struct IsPair : std::false_type {}; template <typename A, typename B> struct IsPair<std::pair<A, B>> : std::true_type {};

// ------------------------------------------------ reference renderer
static std::string indent(int d) { return std::string((std::size_t)(4 * d), ' '); }
template <bool P, typename T> std::string ref(T const& v, int d = 0) {
    std::string const sep = P ? ", " : ",", kv = P ? ": " : ":";
    auto list = [&](std::vector<std::string> const& e, char l, char r) { std::string o(1, l); for (std::size_t i = 0; i < e.size(); ++i) o += (i ? sep : "") + e[i]; return o + r; };
    auto block = [&](std::vector<std::pair<std::string, std::string>> const& e) {
        if (e.empty()) return std::string("{}");
        std::string o = P ? "{\n" : "{";
        for (std::size_t i = 0; i < e.size(); ++i) { if (i) o += P ? ",\n" : ","; if (P) o += indent(d + 1); o += e[i].first + kv + e[i].second; }
        if (P) o += "\n" + indent(d);
        return o + "}"; };
    std::vector<std::string> es;
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
    else if constexpr (std::is_same_v<T, std::nullptr_t> || std::is_same_v<T, std::monostate> || std::is_same_v<T, std::nullopt_t>) return "null";
    else if constexpr (std::is_floating_point_v<T>) { char b[400]; auto r = std::to_chars(b, b + sizeof b, v); return std::string(b, r.ptr); }
    else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
    else if constexpr (std::is_same_v<T, Color> || std::is_same_v<T, Level>) return "\"" + dom(v).s + "\"";
    else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) return "\"" + std::string(v) + "\"";
    else if constexpr (std::is_same_v<T, std::filesystem::path>) return v.string();
    else if constexpr (std::is_same_v<T, std::chrono::seconds>) return std::to_string(v.count()) + "s";
    else if constexpr (std::is_same_v<T, std::chrono::milliseconds>) return std::to_string(v.count()) + "ms";
    else if constexpr (std::is_same_v<T, Pt>) return "<" + ref<P>(v.x, d) + "|" + ref<P>(v.y, d) + ">";
    else if constexpr (IsOpt<T>::value || IsUp<T>::value) return v ? ref<P>(*v, d) : "null";
    else if constexpr (IsVar<T>::value) return std::visit([&](auto const& x) { return ref<P>(x, d); }, v);
    else if constexpr (IsPair<T>::value) { es = {ref<P>(v.first, d), ref<P>(v.second, d)}; return list(es, '(', ')'); }
    else if constexpr (IsTup<T>::value) { std::apply([&](auto const&... e) { (es.push_back(ref<P>(e, d)), ...); }, v); return list(es, '(', ')'); }
    else if constexpr (requires { typename T::mapped_type; }) { std::vector<std::pair<std::string, std::string>> b; for (auto const& [k, e] : v) b.emplace_back(ref<P>(k, d + 1), ref<P>(e, d + 1)); return block(b); }
    else if constexpr (requires { std::begin(v); }) { for (auto const& e : v) es.push_back(ref<P>(e, d)); return list(es, '[', ']'); }
    else { std::vector<std::pair<std::string, std::string>> b; mem(v, [&](char const* k, auto const& m) { b.emplace_back("\"" + std::string(k) + "\"", ref<P>(m, d + 1)); }); return block(b); }
}
// an output target with only what a stream needs: append
struct Sink { std::string s; int n = 0;
    Sink& append(std::string_view x) { s += x; ++n; return *this; }
    Sink& operator+=(std::string_view x) { return append(x); } };
template <typename T> void checkBoth(T const& v) {
    std::string c = ref<false>(v), p = ref<true>(v);
    PBT_EQ(L::toString(v), c, "compact form");
    { std::string s = "pre"; L::toString(v, s); PBT_EQ(s, "pre" + c, "compact form into a string"); }
    { Sink s; L::toString(v, s); PBT_EQ(s.s, c, "compact form into a stream"); }
    if constexpr (!std::is_same_v<T, Pt>) {
        PBT_EQ(L::formatString(v), p, "pretty form");
        { std::string s = "pre"; L::formatString(v, s); PBT_EQ(s, "pre" + p, "pretty form into a string"); }
        { Sink s; L::formatString(v, s); PBT_EQ(s.s, p, "pretty form into a stream"); }
    }
}
// ------------------------------------------------ generators
static Var var(Gen& g) { switch (g.draw(5)) { case 0: return std::monostate{}; case 1: return num<int>(g); case 2: return text(g); case 3: { std::vector<double> v; make(g, v); return v; } default: { Leaf l; make(g, l); return l; } } }
static Misc misc(Gen& g) {
    Misc m; make(g, m.p.first); make(g, m.p.second); std::size_t n = g.size(3); for (std::size_t i = 0; i < n; ++i) { std::pair<std::string, double> p; make(g, p.first); make(g, p.second); m.vp.push_back(p); }
    make(g, m.t1); make(g, m.t3); m.var = var(g); n = g.size(4); while (n--) m.set.insert(num<int>(g)); n = g.size(3); while (n--) make(g, m.ml[num<int>(g)]); make(g, m.mm);
    n = g.size(3); while (n--) m.vars.push_back(var(g)); m.sec = std::chrono::seconds(g.range(-100, 100000)); m.ms = std::chrono::milliseconds(g.range(-5, 1000000)); make(g, m.oo); make(g, m.ptrs); return m;
}
template <typename T> void fill(Gen& g, T& v) { 
    if constexpr (std::is_same_v<T, Misc>) v = misc(g); else if constexpr (std::is_same_v<T, Var>) v = var(g);
    else if constexpr (std::is_same_v<T, Big> || std::is_same_v<T, Empty>) { if constexpr (std::is_same_v<T, Big>) { v.a1 = num<int>(g); v.c_c = text(g); for (auto& k : v.k) k = num<int>(g); } }
    else if constexpr (std::is_same_v<T, std::chrono::seconds>) v = T(g.range(-9, 99999)); else if constexpr (std::is_same_v<T, std::filesystem::path>) v = "/" + g.str("ab/.c", g.size(8));
    else if constexpr (IsPair<T>::value) { fill(g, v.first); fill(g, v.second); } else if constexpr (IsTup<T>::value) std::apply([&](auto&... e) { (fill(g, e), ...); }, v);
    else if constexpr (IsOpt<T>::value) { v.reset(); if (g.boolean()) { v.emplace(); fill(g, *v); } } else if constexpr (IsUp<T>::value) { if (g.boolean()) { v = T{new typename T::element_type{}}; fill(g, *v); } }
    else if constexpr (requires { typename T::mapped_type; }) { auto n = g.size(4); while (n--) { typename T::key_type k{}; fill(g, k); fill(g, v[k]); } }
    else if constexpr (requires { v.insert(*v.begin()); v.key_comp(); }) { auto n = g.size(4); while (n--) { typename T::key_type k{}; fill(g, k); v.insert(k); } }
    else if constexpr (!std::is_same_v<T, std::string> && requires { v.emplace_back(); }) { auto n = g.size(4); while (n--) fill(g, v.emplace_back()); }
    else if constexpr (std::is_array_v<T>) { for (auto& e : v) fill(g, e); } else make(g, v); }
template <typename T> static void viaDom(Gen& g) { T v{}; make(g, v); std::string c = ref<false>(v); g.describe(c); g.nontrivial(c.size() > 30); checkBoth(v); }
static void miscs(Gen& g) { Misc v = misc(g); std::string c = ref<false>(v); g.describe(c); g.nontrivial(); checkBoth(v); }
static void nests(Gen& g) { Nest v; v.misc = misc(g); std::size_t n = g.size(2); while (n--) v.more.push_back(misc(g)); n = g.size(2); while (n--) v.by[text(g)] = misc(g); g.describe(ref<false>(v)); g.nontrivial(v.more.size() + v.by.size() > 0); checkBoth(v); }
static void bigs(Gen& g) { Big v; v.a1 = num<int>(g); v.b22 = num<int>(g); v.c_c = text(g); v.d = g.boolean(); v.e = char('a' + g.draw(26)); v.f = num<unsigned char>(g); v.g = num<long>(g); v.i.resize(g.size(3)); v.j = color(g); for (auto& k : v.k) k = num<int>(g); v.l = num<float>(g);
    g.describe(ref<false>(v)); g.nontrivial(); checkBoth(v); }
static void scalars(Gen& g) {
    g.nontrivial();
    switch (g.draw(12)) {
    case 0: { auto v = num<double>(g); g.describe(ref<false>(v)); checkBoth(v); PBT_EQ((L::internal::FormatZipString{}.template make<double, 3>(v)), [&] { char b[800]; snprintf(b, sizeof b, "%.3f", v); return std::string(b); }(), "three decimals"); break; }
    case 1: { auto v = num<std::uint64_t>(g); g.describe(ref<false>(v)); checkBoth(v); break; }
    case 2: { auto v = num<std::int8_t>(g); g.describe(ref<false>(v)); checkBoth(v); break; }
    case 3: { auto v = text(g, 40); g.describe(v); checkBoth(v); checkBoth(std::string_view{v}); break; }
    case 4: { Pt v{num<int>(g), num<double>(g)}; g.describe("custom"); checkBoth(v); break; }
    case 5: { std::filesystem::path v = "/" + g.str("ab/.c", g.size(10)); g.describe(v.string()); checkBoth(v); break; }
    case 6: { std::vector<int> b; make(g, b); std::span<int> v{b}; g.describe("span " + ref<false>(b)); PBT_EQ(L::toString(v), ref<false>(b), "span"); PBT_EQ(L::formatString(v), ref<true>(b), "span"); break; }
    case 7: { int x = 0; int* p = g.boolean() ? &x + g.draw(3) * 0 : (int*)(std::uintptr_t)g.draw(0); char e[40]; snprintf(e, sizeof e, "0x%lX", (unsigned long)(std::uintptr_t)p); g.describe(e);
        auto low = [](std::string s) { for (auto& c : s) c = (char)tolower(c); return s; };
        PBT_EQ(low(L::toString(p)), low(e), "pointer"); PBT_EQ(low(L::formatString(p)), low(e), "pointer"); break; }
    case 8: { auto t = text(g); t.erase(std::remove(t.begin(), t.end(), '\0'), t.end()); char const* p = t.c_str(); g.describe("C string " + t); PBT_EQ(L::toString(p), t, "C string"); PBT_EQ(L::formatString(p), t, "C string"); std::string s; L::toString(p, s); PBT_EQ(s, t, "C string"); break; }
    case 9: { int a = num<int>(g); auto b = text(g); bool c = g.boolean(); g.describe("several"); PBT_EQ(L::toString(a, b, c, "lit", Leaf{b, a}), ref<false>(a) + ref<false>(b) + ref<false>(c) + "lit" + ref<false>(Leaf{b, a}), "several arguments");
        PBT_EQ(L::formatString(a, "lit", Leaf{b, a}, b), ref<true>(a) + "lit" + ref<true>(Leaf{b, a}) + ref<true>(b), "several arguments"); break; }
    case 10: {  // wide text
        std::wstring w; std::string e; bool bad = false; std::size_t n = g.size(8);
        for (std::size_t i = 0; i < n; ++i) { unsigned c = g.chance(1, 12) ? g.oneof<unsigned>({0xd800, 0xdfff, 0x110000, 0xdbff, 0xdc00, 0x7fffffff}) : g.oneof<unsigned>({0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, (unsigned)g.draw(0xd800)});
            w += (wchar_t)c; if (c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) bad = true; else jref::utf8(e, c); }
        g.describe("wide " + e); std::string got; bool threw = false; try { got = L::toString(w); } catch (std::exception&) { threw = true; }
        PBT_EQ(threw, bad, "wide text refusal"); if (!bad) { PBT_EQ(got, "\"" + e + "\"", "wide text"); std::string s; L::toString(w, s); PBT_EQ(s, got, "wide text into a string"); } break; }
    case 11: { auto v = color(g); auto w = level(g); g.describe("enums"); checkBoth(v); checkBoth(w); break; }
    }
}
// roots of every kind: a root goes through the string form, its elements too
template <typename T> static void root(Gen& g) { T v{}; fill(g, v); std::string c = ref<false>(v); g.describe(c); g.nontrivial(c.size() > 8); checkBoth(v); }
template <typename T, std::size_t N> static void carray(Gen& g) { T v[N]; for (auto& e : v) fill(g, e); std::string c = ref<false>(v); g.describe(c); g.nontrivial(); 
    PBT_EQ(L::toString(v), c, "C array"); PBT_EQ(L::formatString(v), ref<true>(v), "C array, pretty"); { std::string s; L::formatString(v, s); PBT_EQ(s, ref<true>(v), "C array, pretty, into a string"); } { std::string s; L::toString(v, s); PBT_EQ(s, c, "C array into a string"); } }
static void texts(Gen& g) {      // character arrays hold C strings
    char a[6]{}; wchar_t w[5]{}; std::string e, ew; auto n = g.draw(6); for (std::size_t i = 0; i < n; ++i) a[i] = (char)(g.chance(1, 5) ? 0 : 'a' + g.draw(26)); e = a; auto m = g.draw(5); for (std::size_t i = 0; i < m; ++i) w[i] = (wchar_t)g.oneof<unsigned>({0x41, 0xe9, 0x4e2d, 0x1f600, 0x7ff}); for (int i = 0; w[i]; ++i) jref::utf8(ew, (unsigned)w[i]);
    g.describe(e + " " + ew); g.nontrivial(); PBT_EQ(L::toString(a), e, "char array"); PBT_EQ(L::formatString(a), e, "char array, pretty"); PBT_EQ(L::toString(w), ew, "wide char array");
    { std::string s; L::toString(a, s); PBT_EQ(s, e, "char array into a string"); } { std::string s; L::toString(w, s); PBT_EQ(s, ew, "wide char array into a string"); }
    auto d = num<double>(g); char b[800]; snprintf(b, sizeof b, "%.2f", d); PBT_EQ((L::internal::FormatString{}.template make<double, 2>(d)), b, "two decimals");
    std::ostringstream id; id << std::this_thread::get_id(); PBT_EQ(L::toString(std::this_thread::get_id()), id.str(), "thread id"); { std::string s; L::formatString(std::this_thread::get_id(), s); PBT_EQ(s, id.str(), "thread id"); }
    std::chrono::sys_seconds t{std::chrono::seconds(g.draw(4000000000ull))}; PBT_EQ(L::toString(t), std::format("{}", t), "time point"); { std::string s; L::toString(t, s); PBT_EQ(s, std::format("{}", t), "time point"); } PBT_EQ(L::formatString(t), std::format("{}", t), "time point"); { std::string s; L::formatString(t, s); PBT_EQ(s, std::format("{}", t), "time point"); }
}
using M0 = std::map<std::string, int>; using MM = std::map<int, std::map<std::string, Leaf>>; using TT = std::tuple<M0, std::vector<Leaf>, std::pair<std::string, double>, std::optional<M0>>;
template <void (*...F)(Gen&)> static void any(Gen& g) { static void (*f[])(Gen&) = {F...}; f[g.draw(sizeof...(F))](g); }
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "R03",
        .rule = "generated values of 11 aggregate types (nested containers, maps, tuples, pairs, variants, optionals, smart pointers, enums, chrono, C arrays, empty structs) and of scalar kinds; non-trivial: rendering longer than 30 bytes or several members"},
        {{"aggregates", any<viaDom<Nums>, viaDom<Leaf>, viaDom<Cont>, viaDom<Maps>, viaDom<Opts>, viaDom<Mix>, viaDom<Deep>>, 30000, 2000000},
         {"misc", any<miscs, nests, bigs>, 20000, 1000000}, {"roots", any<root<M0>, root<MM>, root<TT>, root<std::vector<M0>>, root<std::vector<std::vector<MM>>>, root<std::set<std::string>>, root<std::pair<M0, std::vector<int>>>, root<std::optional<MM>>, root<std::optional<std::optional<int>>>, root<std::shared_ptr<M0>>, root<std::unique_ptr<std::vector<std::string>>>, root<Var>, root<std::vector<Var>>, root<std::vector<std::pair<std::string, M0>>>,
             root<std::vector<Misc>>, root<std::map<std::string, Misc>>, root<std::tuple<>>, root<std::tuple<int>>, root<std::tuple<bool, Color, std::chrono::seconds, std::filesystem::path>>, root<std::vector<Color>>, root<std::map<std::string, std::vector<std::optional<Leaf>>>>, root<std::vector<std::unique_ptr<Leaf>>>, root<std::vector<Big>>, root<std::array<M0, 2>>, root<std::deque<bool>>, root<std::unordered_map<int, std::vector<Empty>>>,
             carray<int, 3>, carray<std::string, 2>, carray<M0, 2>, carray<Leaf, 2>, carray<bool, 1>, carray<std::vector<Leaf>, 2>, texts>, 40000, 2000000},
         {"scalars", scalars, 60000, 3000000}});
}

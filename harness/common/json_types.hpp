#pragma once
#include <common/json_ref.hpp>
#include <HXLibs/reflection/json/JsonRead.hpp>
#include <HXLibs/reflection/json/JsonWrite.hpp>
#include <deque>
#include <list>
#include <limits>
#include <memory>
#include <optional>
#include <tuple>
#include <unordered_map>
#include <variant>
namespace jt {
using pbt::Gen; using jref::Node;
enum class Color { Red, Green, Blue, Dark_blue2 };
enum Level : int { Low = 0, Mid = 5, High = 9 };

struct Nums { bool b{}; std::int8_t i8{}; std::uint8_t u8{}; std::int16_t i16{}; std::uint16_t u16{}; std::int32_t i32{}; std::uint32_t u32{};
    std::int64_t i64{}; std::uint64_t u64{}; float f{}; double d{}; bool operator==(Nums const&) const = default; };
struct Leaf { std::string name; int v{}; bool operator==(Leaf const&) const = default; };
struct Cont { std::vector<int> vi; std::vector<std::string> vs; std::list<Leaf> ll; std::deque<double> dd; std::array<int, 3> a3{}; std::array<std::string, 1> a1;
    std::vector<std::vector<int>> vv; bool operator==(Cont const&) const = default; };
struct Maps { std::map<std::string, int> mi; std::unordered_map<std::string, std::string> ms; std::map<std::string, Leaf> ml; std::map<std::string, std::vector<std::optional<int>>> mo;
    bool operator==(Maps const&) const = default; };
struct Opts { std::optional<int> oi; std::optional<std::string> os; std::optional<Leaf> ol; std::optional<std::vector<int>> ov; std::shared_ptr<Leaf> sp; std::unique_ptr<int> up; std::optional<bool> ob; std::optional<Color> oc;
    bool operator==(Opts const& o) const {
        return oi == o.oi && os == o.os && ol == o.ol && ov == o.ov && ob == o.ob && oc == o.oc && !sp == !o.sp && (!sp || *sp == *o.sp) && !up == !o.up && (!up || *up == *o.up); } };
struct Mix { Color color{}; Level level{}; std::tuple<int, std::string, bool> t3; std::tuple<Leaf> t1; std::string text; char ch{};
    std::vector<Color> colors; std::vector<std::tuple<int, double>> pts; std::tuple<int, std::string, bool, Leaf, std::vector<int>> t5; bool operator==(Mix const&) const = default; };
struct Deep { Leaf leaf; Nums nums; std::vector<Mix> mixes; Maps maps; std::optional<Cont> cont; long long z{}; bool operator==(Deep const&) const = default; };
// members that hold something before they are read
struct Dflt { std::string name = "preset \"name\""; std::vector<int> vi{1, 2, 3}; std::map<std::string, int> mi{{"preset", 1}}; std::optional<int> oi = 7; std::optional<std::vector<std::string>> ov = std::vector<std::string>{"x"}; std::unique_ptr<Leaf> up = std::make_unique<Leaf>("preset", 4); std::array<int, 2> a2{8, 9};
    std::tuple<std::string, std::optional<int>> t2{"preset", 5}; Color color = Color::Blue; bool b = true; Leaf leaf{"preset", 3}; std::list<std::string> ls{"p", "q"}; std::string name2 = std::string(40, 'p');
    bool operator==(Dflt const& o) const { return name == o.name && vi == o.vi && mi == o.mi && oi == o.oi && ov == o.ov && !up == !o.up && (!up || *up == *o.up) && a2 == o.a2 && t2 == o.t2 && color == o.color && b == o.b && leaf == o.leaf && ls == o.ls && name2 == o.name2; } };
struct One { std::string only; bool operator==(One const&) const = default; };

// ---------------------------------------------------------------- generators
inline std::string text(Gen& g, std::size_t max = 12) {
    std::string s; std::size_t n = g.size(max);
    for (std::size_t i = 0; i < n; ++i) switch (g.draw(7)) {
        case 0: case 1: case 2: s += char('a' + g.draw(26)); break;
        case 3: s += g.pick(std::string("\"\\/{}[]:, 0-n.'")); break;
        case 4: s += char(g.draw(32)); break;
        case 5: jref::utf8(s, g.oneof<unsigned>({0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x4e2d, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff})); break;
        default: { unsigned c = (unsigned)g.draw(0x110000); if (c >= 0xd800 && c < 0xe000) c = 0x20; jref::utf8(s, c); } }
    return s;
}
template <typename T> T num(Gen& g) {
    if constexpr (std::is_same_v<T, bool>) return g.boolean();
    else if constexpr (std::is_floating_point_v<T>) {
        switch (g.draw(5)) {
        case 0: return (T)g.range(-5, 5);
        case 1: return (T)g.range(-100000, 100000) / (T)8;
        case 2: return g.oneof<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), (T)0.1, (T)1e10, (T)123456789.0, (T)-0.0});
        default: { T v; pbt::u64 b = g.draw(0); std::memcpy(&v, &b, sizeof v); return std::isfinite(v) ? v : (T)1.5; } }
    } else switch (g.draw(4)) {
        case 0: return (T)g.draw(10);
        case 1: return g.oneof<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)(std::numeric_limits<T>::max() - 1), (T)-1});
        default: return (T)g.draw(0); }
}
inline Color color(Gen& g) { return (Color)g.draw(4); }
inline Level level(Gen& g) { return g.oneof({Low, Mid, High}); }
template <typename T> void make(Gen& g, T& v);
template <typename T> struct IsOpt : std::false_type {}; template <typename T> struct IsOpt<std::optional<T>> : std::true_type {};
template <typename T> struct IsUp : std::false_type {}; template <typename T> struct IsUp<std::unique_ptr<T>> : std::true_type {}; template <typename T> struct IsUp<std::shared_ptr<T>> : std::true_type {};
template <typename T> struct IsTup : std::false_type {}; template <typename... T> struct IsTup<std::tuple<T...>> : std::true_type {};
template <typename T> struct IsArr : std::false_type {}; template <typename T, std::size_t N> struct IsArr<std::array<T, N>> : std::true_type {};
template <typename T> struct IsVar : std::false_type {}; template <typename... T> struct IsVar<std::variant<T...>> : std::true_type {};

// hand-written member lists: the oracle does not use the library's reflection
template <typename F> void members(Nums& x, F f) { f("b", x.b); f("i8", x.i8); f("u8", x.u8); f("i16", x.i16); f("u16", x.u16); f("i32", x.i32); f("u32", x.u32); f("i64", x.i64); f("u64", x.u64); f("f", x.f); f("d", x.d); }
template <typename F> void members(Leaf& x, F f) { f("name", x.name); f("v", x.v); }
template <typename F> void members(Cont& x, F f) { f("vi", x.vi); f("vs", x.vs); f("ll", x.ll); f("dd", x.dd); f("a3", x.a3); f("a1", x.a1); f("vv", x.vv); }
template <typename F> void members(Maps& x, F f) { f("mi", x.mi); f("ms", x.ms); f("ml", x.ml); f("mo", x.mo); }
template <typename F> void members(Opts& x, F f) { f("oi", x.oi); f("os", x.os); f("ol", x.ol); f("ov", x.ov); f("sp", x.sp); f("up", x.up); f("ob", x.ob); f("oc", x.oc); }
template <typename F> void members(Mix& x, F f) { f("color", x.color); f("level", x.level); f("t3", x.t3); f("t1", x.t1); f("text", x.text); f("ch", x.ch); f("colors", x.colors); f("pts", x.pts); f("t5", x.t5); }
template <typename F> void members(Deep& x, F f) { f("leaf", x.leaf); f("nums", x.nums); f("mixes", x.mixes); f("maps", x.maps); f("cont", x.cont); f("z", x.z); }
template <typename F> void members(Dflt& x, F f) { f("name", x.name); f("vi", x.vi); f("mi", x.mi); f("oi", x.oi); f("ov", x.ov); f("up", x.up); f("a2", x.a2); f("t2", x.t2); f("color", x.color); f("b", x.b); f("leaf", x.leaf); f("ls", x.ls); f("name2", x.name2); }
template <typename F> void members(One& x, F f) { f("only", x.only); }

template <typename T> void make(Gen& g, T& v) {
    if constexpr (std::is_same_v<T, std::string>) v = text(g);
    else if constexpr (std::is_same_v<T, Color>) v = color(g);
    else if constexpr (std::is_same_v<T, Level>) v = level(g);
    else if constexpr (std::is_same_v<T, std::monostate>) ;
    else if constexpr (std::is_arithmetic_v<T>) v = num<T>(g);
    else if constexpr (IsOpt<T>::value) { v.reset(); if (g.boolean()) { v.emplace(); make(g, *v); } }
    else if constexpr (IsUp<T>::value) { v = T{}; if (g.boolean()) { v = T{new typename T::element_type{}}; make(g, *v); } }
    else if constexpr (IsTup<T>::value) std::apply([&](auto&... e) { (make(g, e), ...); }, v);
    else if constexpr (IsArr<T>::value) { for (auto& e : v) make(g, e); }
    else if constexpr (IsVar<T>::value) {
        [&]<std::size_t... I>(std::index_sequence<I...>) { std::size_t k = g.draw(sizeof...(I));
            ((I == k ? (make(g, v.template emplace<I>()), 0) : 0), ...); }(std::make_index_sequence<std::variant_size_v<T>>{}); }
    else if constexpr (requires { typename T::mapped_type; }) { v.clear(); std::size_t n = g.size(4); for (std::size_t i = 0; i < n; ++i) { auto k = text(g, 6); make(g, v[k]); } }
    else if constexpr (requires { v.emplace_back(); }) { v.clear(); std::size_t n = g.size(5); for (std::size_t i = 0; i < n; ++i) make(g, v.emplace_back()); }
    else members(v, [&](char const*, auto& m) { make(g, m); });
}
template <typename T> Node dom(T const& cv) {
    auto& v = const_cast<T&>(cv);
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) return Node::str(std::string(v));
    else if constexpr (std::is_same_v<T, Color>) { static char const* n[] = {"Red", "Green", "Blue", "Dark_blue2"}; return Node::str(n[(int)v]); }
    else if constexpr (std::is_same_v<T, Level>) return Node::str(v == Low ? "Low" : v == Mid ? "Mid" : "High");
    else if constexpr (std::is_same_v<T, std::monostate>) return Node::null();
    else if constexpr (std::is_same_v<T, bool>) return Node::boolean(v);
    else if constexpr (std::is_floating_point_v<T>) return Node::dbl(v, sizeof(T) == 4);
    else if constexpr (std::is_arithmetic_v<T>) return Node::integer(std::to_string(v));
    else if constexpr (IsOpt<T>::value || IsUp<T>::value) { return v ? dom(*v) : Node::null(); }
    else if constexpr (IsVar<T>::value) return std::visit([](auto const& x) { return dom(x); }, v);
    else {
        Node n = Node::arr();
        if constexpr (IsTup<T>::value) std::apply([&](auto const&... e) { (n.a.push_back(dom(e)), ...); }, v);
        else if constexpr (requires { typename T::mapped_type; }) { n = Node::obj(); for (auto const& [k, e] : v) n.o.emplace_back(k, dom(e)); }
        else if constexpr (requires { v.begin(); }) { for (auto const& e : v) n.a.push_back(dom(e)); }
        else { n = Node::obj(); members(v, [&](char const* k, auto& m) { n.o.emplace_back(k, dom(m)); }); }
        return n;
    }
}
} // namespace jt

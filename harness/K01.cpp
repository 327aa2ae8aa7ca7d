// technique: property-based testing: generated key sets of many sizes and key types against std::map / std::vector models
// opt: -O1
#include <common/pbt.hpp>
#include <HXLibs/container/CHashMap.hpp>
#include <HXLibs/container/CVector.hpp>
#include <HXLibs/container/RadixTree.hpp>
#include <map>
#include <set>
#include <deque>
using namespace HX::container;
using pbt::Gen; using pbt::quote;
enum class E16 : std::uint16_t {};

// one key generator per key type; ranges are chosen so that clustered, sparse and extreme keys all occur
template <typename K> struct KeyGen;
template <typename K> requires (std::is_integral_v<K> || std::is_enum_v<K>) struct KeyGen<K> {
    using Own = K; int style;
    explicit KeyGen(Gen& g) : style((int)g.draw(4)) {}
    K operator()(Gen& g) const {
        std::uint64_t v = 0;
        switch (style) {
        case 0: v = g.draw(400); break;                                                       // dense
        case 1: v = (g.draw(400) << 8) | 7; break;                                            // strided
        case 2: v = g.draw(~0ULL); break;                                                     // sparse
        case 3: v = g.oneof<std::uint64_t>({0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 1ULL << 32, 1ULL << 63, ~0ULL, ~0ULL >> 1}) + (g.chance(60, 100) ? g.draw(300) * 0x01000193ULL : 0); break;
        }
        return static_cast<K>(v);
    }
    static K view(Own const& o) { return o; }
    static std::string show(Own const& o) { return std::to_string((long long)o); }
};
template <> struct KeyGen<std::string_view> {
    using Own = std::string; int style;
    explicit KeyGen(Gen& g) : style((int)g.draw(4)) {}
    std::string operator()(Gen& g) const {
        switch (style) {
        case 0: return g.strUpTo("ab", 9);                                                    // many shared prefixes
        case 1: return "/api/v1/item" + std::to_string(g.draw(1000));
        case 2: return g.blob(g.size(12));                                                    // any bytes, NUL included
        default: { std::string s = g.strUpTo("xyz", 4); s.append(g.draw(40), 'q'); return s; }
        }
    }
    static std::string_view view(std::string const& o) { return o; }
    static std::string show(std::string const& o) { return quote(o, 20); }
};

template <typename K, std::size_t N> static void mapN(Gen& g) {
    using KG = KeyGen<K>; KG kg{g};
    std::vector<typename KG::Own> keys; std::set<typename KG::Own> seen;
    constexpr std::size_t space = sizeof(K) == 1 ? 256 : ~0ULL;
    if constexpr (N > space) return;
    for (std::size_t tries = 0; keys.size() < N && tries < 40 * N + 100; ++tries) { auto k = kg(g); if (seen.insert(k).second) keys.push_back(k); }
    // top up deterministically, so that every N is reached
    for (std::uint64_t i = 0; keys.size() < N; ++i) { typename KG::Own k; if constexpr (std::is_same_v<K, std::string_view>) k = "k" + std::to_string(i); else k = static_cast<K>(i); if (seen.insert(k).second) keys.push_back(k); }
    std::array<std::pair<K, int>, N> a{}; std::map<typename KG::Own, int> model;
    for (std::size_t i = 0; i < N; ++i) { int v = (int)g.draw(1000); a[i] = {KG::view(keys[i]), v}; model[keys[i]] = v; }
    CHashMap<K, int, N> m{a}; auto const& cm = m;
    std::string d; for (auto& k : keys) d += KG::show(k) + " "; g.describe(d); g.nontrivial(N > 1);
    PBT_EQ(m.size(), N, "size");
    auto check = [&](typename KG::Own const& k) {
        auto it = model.find(k); auto f = cm.find(KG::view(k)); auto f2 = m.find(KG::view(k));
        PBT_EQ(f != cm.end(), it != model.end(), "find of " << KG::show(k) << " reports presence");
        PBT_EQ(f2 != m.end(), it != model.end(), "mutable find of " << KG::show(k) << " reports presence");
        bool thrown = false; int got = 0; try { got = cm.at(KG::view(k)); } catch (std::out_of_range const&) { thrown = true; }
        PBT_EQ(!thrown, it != model.end(), "at of " << KG::show(k) << " succeeds");
        bool thrown2 = false; int got2 = 0; try { got2 = m.at(KG::view(k)); } catch (std::out_of_range const&) { thrown2 = true; }
        PBT_EQ(!thrown2, it != model.end(), "mutable at of " << KG::show(k) << " succeeds");
        if (it != model.end()) { PBT_EQ(f->second, it->second, "value of " << KG::show(k)); PBT_CHECK(f->first == KG::view(k), "key of the entry found for " << KG::show(k)); PBT_EQ(f2->second, it->second, "value (mutable find)"); PBT_EQ(got, it->second, "at"); PBT_EQ(got2, it->second, "mutable at"); }
    };
    for (auto& k : keys) check(k);
    for (int i = 0; i < 40; ++i) check(kg(g));                                                // mostly absent neighbours of the keys
    // changes through the map are seen, and only on that key
    for (int i = 0; i < 3; ++i) { auto const& k = keys[g.draw(N)]; int v = (int)g.draw(1000); if (g.boolean()) m.at(KG::view(k)) = v; else m.find(KG::view(k))->second = v; model[k] = v; }
    std::map<typename KG::Own, int> it; std::size_t n = 0;
    for (auto const& [k, v] : cm) { it.emplace(typename KG::Own(k), v); ++n; }
    PBT_EQ(n, N, "entries visited"); PBT_CHECK(it == model, "iteration visits every entry with its value");
    std::size_t n2 = 0; for (auto& kv : m) { kv.second += 1; ++n2; } PBT_EQ(n2, N, "entries visited (mutable)");
    for (auto& [k, v] : model) PBT_EQ(m.at(KG::view(k)), v + 1, "value changed by iteration");
    auto copy = m; for (auto& [k, v] : model) PBT_EQ(copy.at(KG::view(k)), v + 1, "copy");
}
template <typename K> static void mapK(Gen& g) {
    switch (g.draw(15)) {
    case 0: return mapN<K, 1>(g); case 1: return mapN<K, 2>(g); case 2: return mapN<K, 3>(g); case 3: return mapN<K, 4>(g); case 4: return mapN<K, 5>(g);
    case 5: return mapN<K, 6>(g); case 6: return mapN<K, 7>(g); case 7: return mapN<K, 8>(g); case 8: return mapN<K, 9>(g); case 9: return mapN<K, 16>(g);
    case 10: return mapN<K, 17>(g); case 11: return mapN<K, 33>(g); case 12: return mapN<K, 64>(g); case 13: return mapN<K, 100>(g); default: return mapN<K, 200>(g);
    }
}
static void hashMap(Gen& g) {
    switch (g.draw(6)) {
    case 0: return mapK<std::int64_t>(g); case 1: return mapK<std::uint8_t>(g); case 2: return mapK<std::uint32_t>(g); case 3: return mapK<E16>(g);
    default: return mapK<std::string_view>(g);
    }
}
// the map the documentation builds at compile time
using P = std::pair<std::string_view, int>;
static constexpr CHashMap constMap = makeCHashMap(P{"http", 80}, P{"https", 443}, P{"ws", 80}, P{"wss", 443}, P{"", 1}, P{"ftp", 21}, P{"socks5", 1080});
static constexpr CHashMap intMap = makeCHashMap(std::pair<int, char>{-1, 'a'}, std::pair<int, char>{0, 'b'}, std::pair<int, char>{1, 'c'}, std::pair<int, char>{2147483647, 'd'}, std::pair<int, char>{-2147483647 - 1, 'e'});
static void constant(Gen& g) {
    std::map<std::string, int> m{{"http", 80}, {"https", 443}, {"ws", 80}, {"wss", 443}, {"", 1}, {"ftp", 21}, {"socks5", 1080}};
    std::string k = g.chance(40, 100) ? g.pick(std::vector<std::string>{"http", "https", "ws", "wss", "", "ftp", "socks5"}) : g.strUpTo("htpswfocks5", 7);
    g.describe(quote(k)); g.nontrivial(k.size() > 1);
    auto f = constMap.find(std::string_view(k)); PBT_EQ(f != constMap.end(), m.count(k) > 0, "presence of " << quote(k)); if (m.count(k)) PBT_EQ(f->second, m[k], "value of " << quote(k));
    std::map<int, char> im{{-1, 'a'}, {0, 'b'}, {1, 'c'}, {2147483647, 'd'}, {-2147483647 - 1, 'e'}};
    int q = g.chance(50, 100) ? (int)g.draw(5) - 2 : (int)(unsigned)g.draw(~0U); if (g.chance(20, 100)) q = 2147483647; auto fi = intMap.find(q); PBT_EQ(fi != intMap.end(), im.count(q) > 0, "presence of " << q); if (im.count(q)) PBT_EQ(fi->second, im[q], "value of " << q);
}
template <std::size_t N> static void vecN(Gen& g) {
    std::string log; std::vector<std::string> m; CVector<std::string, N> v; auto const& cv = v;
    if (g.chance(30, 100)) { std::size_t n = g.draw(N + 1); std::string t = g.strUpTo("abc", 3); v = CVector<std::string, N>(n, t); m.assign(n, t); log = "init" + std::to_string(n) + " "; }
    int ops = 1 + (int)g.size(24), pushes = 0;
    for (int i = 0; i < ops; ++i) {
        switch (g.draw(8)) {
        case 0: case 1: case 2: case 3: if (m.size() < N) { std::string s = g.strUpTo("abc", 2); if (g.boolean()) v.push_back(s); else v.push_back(std::string(s)); m.push_back(s); log += "push "; ++pushes; } break;
        case 4: if (g.chance(30, 100)) { v.clear(); m.clear(); log += "clear "; } break;
        case 5: if (!m.empty()) { auto j = g.draw(m.size()); std::string s = g.strUpTo("abc", 2); v[j] = s; m[j] = s; log += "set "; } break;
        case 6: if (!m.empty()) { std::string s = g.strUpTo("abc", 2); if (g.boolean()) { v.front() = s; m.front() = s; } else { v.back() = s; m.back() = s; } log += "ends "; } break;
        case 7: { std::string s = g.strUpTo("abc", 2); auto a = std::find(m.begin(), m.end(), s) - m.begin(); PBT_EQ(v.find(s) - v.begin(), a, "find " << quote(s) << " after " << log); PBT_EQ(cv.find(s) - cv.begin(), a, "const find " << quote(s) << " after " << log); break; }
        }
        PBT_EQ(v.size(), m.size(), "size after " << log); PBT_EQ(v.max_size(), N, "max_size");
        std::vector<std::string> seen, seenC; for (auto& s : v) seen.push_back(s); for (auto const& s : cv) seenC.push_back(s);
        PBT_CHECK(seen == m && seenC == m, "iteration after " << log);
        for (std::size_t j = 0; j < m.size(); ++j) PBT_EQ(cv[j], m[j], "element after " << log);
        if (!m.empty()) { PBT_EQ(cv.front(), m.front(), "front"); PBT_EQ(cv.back(), m.back(), "back"); }
    }
    g.describe("N=" + std::to_string(N) + " " + log); g.nontrivial(pushes > 1 || m.size() == N);
}
static void vec(Gen& g) { switch (g.draw(5)) { case 0: return vecN<1>(g); case 1: return vecN<2>(g); case 2: return vecN<3>(g); case 3: return vecN<8>(g); default: return vecN<21>(g); } }
static void radix(Gen& g) {
    RadixTree<std::string> t; std::map<std::vector<std::string>, std::string> m; std::string log; int ops = 1 + (int)g.size(40), over = 0;
    auto path = [&] { std::vector<std::string> p; std::size_t n = g.size(5); for (std::size_t i = 0; i < n; ++i) p.push_back(g.chance(15, 100) ? g.blob(g.size(3)) : g.pick(std::vector<std::string>{"a", "b", "ab", "", "*", "**", "{}", "home"})); return p; };
    for (int i = 0; i < ops; ++i) {
        auto p = path();
        if (g.chance(50, 100)) { std::string v = std::to_string(g.draw(1000)); over += m.count(p) > 0; t.insert(p, v); m[p] = v; log += "insert(" + std::to_string(p.size()) + ") "; }
        auto q = g.boolean() || m.empty() ? path() : [&] { auto it = m.begin(); std::advance(it, g.draw(m.size())); auto r = it->first; if (g.chance(30, 100) && !r.empty()) r.pop_back(); if (g.chance(15, 100)) r.push_back("a"); return r; }();
        auto f = t.find(q); auto it = m.find(q); std::string show; for (auto& s : q) show += "/" + quote(s);
        PBT_EQ(f.has_value(), it != m.end(), "presence of " << show); if (f) PBT_EQ(*f, it->second, "value at " << show);
    }
    for (auto& [k, v] : m) { auto f = t.find(k); PBT_CHECK(f && *f == v, "a stored path is found with its latest value"); }
    g.describe(log); g.nontrivial(m.size() > 2 && ops > 4);
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "K01",
        .rule = "constant maps of 15 sizes up to 200 over four key types, vectors of five capacities, tries of up to 40 insertions; non-trivial: more than one key / push / more than two stored paths",
        .assumptions = {"keys of one constant map are distinct", "pushing beyond the capacity of the fixed vector is outside the property"}},
        {{"hashMap", hashMap, 30000, 1500000}, {"constant", constant, 20000, 400000}, {"vector", vec, 40000, 1500000}, {"radix", radix, 20000, 1000000}});
}

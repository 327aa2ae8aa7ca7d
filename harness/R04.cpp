// gen: tools/gen_types.py
// technique: property-based testing over generated type declarations (aggregates, macro-registered classes, enums) compared with the declaration text they were generated from
#include <common/pbt.hpp>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
#include <HXLibs/reflection/MemberName.hpp>
#include <HXLibs/reflection/MemberPtr.hpp>
#include <HXLibs/reflection/EnumName.hpp>
#include <HXLibs/reflection/TypeName.hpp>
#include <HXLibs/reflection/ReflectionMacro.hpp>
template <typename T> struct Desc;
#include <gen/R04.hpp>
using namespace pbt; using namespace HX; namespace rf = HX::reflection;

static std::string near(Gen& g, std::vector<std::string> const& names) {
    std::string s = g.pick(names);
    switch (g.draw(6)) {
    case 0: return s;
    case 1: s.pop_back(); return s;
    case 2: return s + g.pick(std::string("_aX0 \0", 6));
    case 3: s[g.draw(s.size())] ^= 0x20; return s;
    case 4: s[g.draw(s.size())] = char(g.draw(256)); return s;
    default: return g.str("abxX_01", g.size(6)); }
}
template <typename T> static void structs(Gen& g) {
    using D = Desc<T>; auto names = D::names();
    g.describe(std::string(D::type) + " with " + std::to_string(D::count) + " members"); g.nontrivial(D::count > 1); g.label(D::aggregate ? "aggregate" : "registered");
    PBT_EQ(rf::membersCountVal<T>, D::count, "member count of " << D::type);
    PBT_EQ(rf::membersCount<T const&>(), D::count, "member count of " << D::type);
    PBT_EQ(std::string(rf::getTypeName<T>()), std::string(D::type), "type name");
    constexpr auto got = rf::getMembersNames<T>();
    PBT_EQ(got.size(), D::count, "names of " << D::type);
    for (std::size_t i = 0; i < D::count; ++i) PBT_EQ(std::string(got[i]), names[i], "name of member " << i << " of " << D::type);
    constexpr auto map = rf::getMembersNamesMap<T>();
    std::string q = near(g, names); std::size_t exp = (std::size_t)(std::find(names.begin(), names.end(), q) - names.begin());
    auto it = map.find(std::string_view{q});
    PBT_EQ(it != map.end(), exp < D::count, "is " << quote(q) << " a member of " << D::type);
    if (it != map.end()) { PBT_EQ(it->second, exp, "index of " << q << " in " << D::type); PBT_EQ(map.at(std::string_view{q}), exp, "index of " << q << " in " << D::type); }
    else { bool threw = false; try { (void)map.at(std::string_view{q}); } catch (std::exception&) { threw = true; } PBT_CHECK(threw, "at() found the non-member " << quote(q)); }
    for (std::size_t i = 0; i < D::count; ++i) PBT_EQ(map.at(std::string_view{names[i]}), i, "index of " << names[i]);
    // visiting: every member once, in order, by its own name and address, const and mutable, and nothing else
    T obj{}; auto const& cobj = obj; auto addrs = D::addrs(obj);
    std::vector<int> seen; std::size_t k = 0;
    auto visit = [&]<std::size_t I>(std::index_sequence<I>, std::string_view name, auto& v) {
        PBT_EQ(I, k, "visit order in " << D::type); ++k;
        PBT_EQ(std::string(name), names[I], "visited name");
        PBT_CHECK((void const*)&v == addrs[I].first, "member " << names[I] << " of " << D::type << " visited at another address");
        PBT_EQ(sizeof v, addrs[I].second, "type of member " << names[I]); };
    rf::forEach(obj, visit); PBT_EQ(k, D::count, "members visited"); k = 0;
    rf::forEach(cobj, visit); PBT_EQ(k, D::count, "const members visited");
    // writing one arithmetic member through the visit changes that member only
    { std::vector<unsigned char> before((unsigned char*)&obj, (unsigned char*)&obj + sizeof obj); std::size_t target = g.draw(D::count); bool done = false;
      rf::forEach(obj, [&]<std::size_t I>(std::index_sequence<I>, std::string_view, auto& v) { using V = std::remove_cvref_t<decltype(v)>;
          if constexpr (std::is_arithmetic_v<V>) if (I == target) { v = (V)1; done = true; } });
      std::vector<unsigned char> after((unsigned char*)&obj, (unsigned char*)&obj + sizeof obj);
      std::size_t lo = (std::size_t)((char const*)addrs[target].first - (char const*)&obj), hi = lo + addrs[target].second; bool changed = false;
      for (std::size_t i = 0; i < after.size(); ++i) if (before[i] != after[i]) { changed = true; PBT_CHECK(i >= lo && i < hi, "writing member " << names[target] << " changed byte " << i); }
      PBT_EQ(changed, done, "write through the visit of " << names[target]); }
    // name -> offset table
    { static const auto off = rf::makeNameToIdxVariantHashMap<T>();
      auto jt = off.find(std::string_view{q}); PBT_EQ(jt != off.end(), exp < D::count, "offset table: is " << quote(q) << " a member of " << D::type);
      std::size_t i = g.draw(D::count);
      std::visit([&](auto const& ix) { PBT_EQ((std::size_t)std::remove_cvref_t<decltype(ix)>::Idx, i, "index of " << names[i]); PBT_CHECK((char const*)&obj + ix.offset == (char const*)addrs[i].first, "offset of " << names[i] << " in " << D::type);
          PBT_EQ(sizeof(typename std::remove_cvref_t<decltype(ix)>::Type), addrs[i].second, "type of " << names[i]); }, off.at(std::string_view{names[i]})); }
    if constexpr (D::hasPtrs) { static const auto ptrs = rf::makeMemberPtrToNameMap<T>();
        std::size_t n = 0; D::ptrs([&](auto p, char const* name) { PBT_EQ(std::string(ptrs.at(p)), std::string(name), "name of a member pointer of " << D::type); ++n; }); PBT_EQ(n, D::count, "member pointers"); }
}
template <typename E> static void enums(Gen& g) {
    using D = Desc<E>; auto vals = D::values();
    std::vector<std::string> names; for (auto& v : vals) names.push_back(v.first);
    g.describe(std::string(D::type) + " with " + std::to_string(vals.size()) + " values"); g.nontrivial(vals.size() > 1);
    PBT_EQ(std::string(rf::getTypeName<E>()), std::string(D::type), "type name");
    PBT_EQ(rf::getValidEnumValueCnt<E>(), vals.size(), "number of values of " << D::type);
    auto& [n, v] = vals[g.draw(vals.size())];
    PBT_EQ(std::string(rf::toEnumName((E)v)), n, "name of value " << v << " of " << D::type);
    PBT_EQ((long)rf::toEnum<E>(n), v, "value of " << n << " of " << D::type);
    long x = D::lo + (long)g.draw((u64)(D::hi - D::lo + 1)); std::string e;
    for (auto& w : vals) if (w.second == x) e = w.first;
    PBT_EQ(std::string(rf::toEnumName((E)x)), e, "name of value " << x << " of " << D::type);
    std::string q = near(g, names); long ev = 0; bool known = false; for (auto& w : vals) if (w.first == q) { known = true; ev = w.second; }
    std::unique_ptr<char[]> b(new char[q.size()]); std::memcpy(b.get(), q.data(), q.size());
    bool ok = true; long got = 0; try { got = (long)rf::toEnum<E>(std::string_view{b.get(), q.size()}); } catch (std::exception&) { ok = false; }
    PBT_EQ(ok, known, "is " << quote(q) << " a value of " << D::type); if (known) PBT_EQ(got, ev, "value of " << q);
}
int main(int c, char** v) {
#define FS(T) &structs<T>,
#define FE(T) &enums<T>,
    return pbt::main(c, v, {.property = "R04",
        .rule = "type declarations generated from the seed (up to 50 members, near-colliding names, nested and standard-library members, four registration macros, scoped and unscoped enums over the whole supported range), each probed with generated names, values and writes; non-trivial: more than one member or value",
        .assumptions = {"enumerators outside [-128,127] (signed) or [0,255] (unsigned), aliases of one value and empty nested aggregates are outside what the library supports"}},
        {{"structs", [](Gen& g) { static void (*f[])(Gen&) = {GEN_STRUCTS(FS)}; f[g.draw(std::size(f))](g); }, 40000, 1000000},
         {"enums", [](Gen& g) { static void (*f[])(Gen&) = {GEN_ENUMS(FE)}; f[g.draw(std::size(f))](g); }, 60000, 1000000}});
}

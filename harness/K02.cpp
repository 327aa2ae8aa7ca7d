// technique: stateful property-based testing: random operation sequences against a reference model, with objects that account for every construction and destruction and constructors that fail on demand
#include <common/tracked.hpp>
#include <HXLibs/container/UninitializedNonVoidVariant.hpp>
#include <HXLibs/container/Uninitialized.hpp>
#include <HXLibs/container/Try.hpp>
using namespace pbt; using namespace HX::container; using tr::Obj;

// ---------------------------------------------------------------- variant
using V = UninitializedNonVoidVariant<Obj<0>, void, Obj<1>, Obj<0>, int>;
struct M { int idx = -1; int v = 0; };                       // idx -1: nothing
static bool counted(int i) { return i == 0 || i == 2 || i == 3; }
static void put(V& v, int idx, int x, int form) {
    switch (idx) {
    case 0: if (form == 1) v.emplace<Obj<0>>(x); else if (form == 2) { Obj<0> o(x); v.emplace<0>(o); } else v.emplace<0>(x); break;
    case 1: if (form == 1) v.emplace<void>(); else v.emplace<1>(); break;
    case 2: if (form == 1) v.emplace<Obj<1>>(x); else if (form == 2) { Obj<1> o(x); v.emplace<2>(std::move(o)); } else if (form == 3) { Obj<1> o(x); v = o; } else v.emplace<2>(x); break;
    case 3: v.emplace<3>(x); break;
    case 4: v.emplace<4>(x); break; }
}
template <std::size_t I> static void getCheck(V& v, M const& m) {
    bool ok = true; int got = 0; V const& cv = v;
    try { auto& r = v.get<I>(); if constexpr (I == 4) got = r; else if constexpr (I != 1) got = r.v; } catch (std::exception&) { ok = false; }
    PBT_EQ(ok, m.idx == (int)I, "get<" << I << "> with alternative " << m.idx);
    if (ok && I != 1) PBT_EQ(got, m.v, "value of get<" << I << ">");
    bool ok2 = true; try { auto& r = get<I>(cv); if constexpr (I == 4) { PBT_EQ(r, m.v, "const get"); } } catch (std::exception&) { ok2 = false; }
    PBT_EQ(ok2, ok, "const get<" << I << "> with alternative " << m.idx);
}
static void look(V& v, M const& m) {
    PBT_EQ((long)v.index(), (long)(m.idx < 0 ? (long)UninitializedNonVoidVariantNpos : m.idx), "index()");
    getCheck<0>(v, m); getCheck<1>(v, m); getCheck<2>(v, m); getCheck<3>(v, m); getCheck<4>(v, m);
    bool threw = false; std::string r;
    try { r = visit([](auto&& x) -> std::string { using X = std::remove_cvref_t<decltype(x)>; if constexpr (std::is_same_v<X, Obj<0>>) return "a" + std::to_string(x.v); else if constexpr (std::is_same_v<X, Obj<1>>) return "b" + std::to_string(x.v); else if constexpr (std::is_same_v<X, int>) return "i" + std::to_string(x); else return "void"; }, v); } catch (std::exception&) { threw = true; }
    std::string e = m.idx == 1 ? "void" : std::string(1, "a?bai"[m.idx < 0 ? 0 : m.idx]) + std::to_string(m.v);
    PBT_EQ(threw, m.idx < 0, "visit of an empty variant"); if (!threw) PBT_EQ(r, e, "visit");
}
static void variant(Gen& g) {
    tr::reset(); std::string log; std::size_t moves = 0;
    {
        std::vector<std::unique_ptr<V>> v; std::vector<M> m(3); for (int i = 0; i < 3; ++i) v.push_back(std::make_unique<V>());
        auto expect = [&] { std::size_t n = 0; for (auto&& x : m) n += counted(x.idx); return n; };
        int ops = 1 + (int)g.size(20);
        for (int k = 0; k < ops; ++k) {
            std::size_t i = g.draw(3), j = g.draw(3); int idx = (int)g.draw(5), x = (int)g.draw(100);
            switch (g.draw(10)) {
            case 0: case 1: case 2: { int form = (int)g.draw(4); log += "put" + std::to_string(i) + "<" + std::to_string(idx) + ">=" + std::to_string(x) + " "; put(*v[i], idx, x, form); m[i] = {idx, idx == 1 ? 0 : x}; break; }
            case 3: { tr::fuse() = 0; bool threw = false; log += "fail" + std::to_string(i) + "<" + std::to_string(idx) + "> "; int form = (int)g.draw(2);
                try { put(*v[i], idx, x, form); } catch (tr::Boom&) { threw = true; }
                tr::fuse() = -1; PBT_EQ(threw, counted(idx), "a failing construction lets its exception out"); m[i] = threw ? M{} : M{idx, idx == 1 ? 0 : x}; ++moves; break; }
            case 4: log += "copy" + std::to_string(i) + "=" + std::to_string(j) + " ";
                if (g.chance(1, 4) && counted(m[j].idx) && i != j) { tr::fuse() = 0; bool threw = false; try { *v[i] = *v[j]; } catch (tr::Boom&) { threw = true; } tr::fuse() = -1; PBT_CHECK(threw, "a failing copy lets its exception out"); m[i] = M{}; log += "(fails) "; }
                else { *v[i] = *v[j]; m[i] = m[j]; } ++moves; break;
            case 5: log += "move" + std::to_string(i) + "=" + std::to_string(j) + " "; if (i != j) { *v[i] = std::move(*v[j]); m[i] = m[j]; if (counted(m[j].idx)) m[j].v = -1; } else { auto& r = *v[i]; r = std::move(r); } ++moves; break;
            case 6: log += "swap" + std::to_string(i) + "," + std::to_string(j) + " "; v[i]->swap(*v[j]); std::swap(m[i], m[j]); ++moves; break;
            case 7: log += "reset" + std::to_string(i) + " "; v[i]->reset(); m[i] = M{}; break;
            case 8: { log += "ctor" + std::to_string(i) + " "; 
                if (g.boolean()) { if (g.chance(1, 4) && counted(m[j].idx)) { tr::fuse() = 0; bool threw = false; try { V c{*v[j]}; } catch (tr::Boom&) { threw = true; } tr::fuse() = -1; PBT_CHECK(threw, "a failing copy construction lets its exception out"); }
                    else { auto c = std::make_unique<V>(*v[j]); M old = m[j]; v[i] = std::move(c); m[i] = old; } }
                else if (i != j) { auto c = std::make_unique<V>(std::move(*v[j])); m[i] = m[j]; if (counted(m[j].idx)) m[j].v = -1; v[i] = std::move(c); } ++moves; break; }
            case 9: { bool eq = m[i].idx == m[j].idx && (m[i].idx < 0 || m[i].v == m[j].v); PBT_EQ(*v[i] == *v[j], eq, "equality of alternatives " << m[i].idx << " and " << m[j].idx); PBT_EQ(*v[i] != *v[j], !eq, "inequality"); break; }
            }
            for (int q = 0; q < 3; ++q) look(*v[q], m[q]);
            tr::verify(expect(), "after " + log);
        }
        g.describe(log); g.nontrivial(ops > 3 && moves > 0);
    }
    tr::verify(0, "after everything is destroyed: " + log);
}
// ---------------------------------------------------------------- uninitialised holder
static void uninit(Gen& g) {
    tr::reset(); std::string log; int ops = 1 + (int)g.size(16);
    {
        using U = Uninitialized<Obj<0>>; std::vector<std::unique_ptr<U>> u; std::optional<int> m[3]; for (int i = 0; i < 3; ++i) u.push_back(std::make_unique<U>());
        for (int k = 0; k < ops; ++k) {
            std::size_t i = g.draw(3), j = g.draw(3); int x = (int)g.draw(100);
            switch (g.draw(6)) {
            case 0: case 1: log += "set" + std::to_string(i) + " "; u[i]->set(x); m[i] = x; break;
            case 2: { tr::fuse() = 0; bool t = false; try { u[i]->set(x); } catch (tr::Boom&) { t = true; } tr::fuse() = -1; PBT_CHECK(t, "failing set lets its exception out"); m[i].reset(); log += "fail" + std::to_string(i) + " "; break; }
            case 3: if (m[i]) { log += "move" + std::to_string(i) + " "; { auto o = u[i]->move(); PBT_EQ(o.v, *m[i], "moved out value"); } m[i].reset(); } break;
            case 4: if (i != j) { log += "assign" + std::to_string(i) + "=" + std::to_string(j) + " "; *u[i] = std::move(*u[j]); m[i] = m[j]; m[j].reset(); } break;
            case 5: if (i != j) { log += "ctor" + std::to_string(i) + "=" + std::to_string(j) + " "; u[i] = std::make_unique<U>(std::move(*u[j])); m[i] = m[j]; m[j].reset(); } break;
            }
            std::size_t n = 0;
            for (int q = 0; q < 3; ++q) { PBT_EQ(u[q]->isAvailable(), m[q].has_value(), "isAvailable after " << log); if (m[q]) { PBT_EQ(u[q]->get().v, *m[q], "get after " << log); ++n; } }
            tr::verify(n, "after " + log);
        }
    }
    g.describe(log); g.nontrivial(ops > 3);
    tr::verify(0, "after everything is destroyed: " + log);
}
// ---------------------------------------------------------------- value or exception
template <typename T> static void tryHolder(Gen& g) {
    constexpr bool isVoid = std::is_void_v<T>; tr::reset(); std::string log; int ops = 1 + (int)g.size(16);
    {
        using R = Try<T>; std::vector<std::unique_ptr<R>> t; struct S { int k = 0; int v = 0; } m[3];     // k: 0 nothing 1 value 2 exception
        for (int i = 0; i < 3; ++i) t.push_back(std::make_unique<R>());
        for (int k = 0; k < ops; ++k) {
            std::size_t i = g.draw(3), j = g.draw(3); int x = (int)g.draw(100);
            switch (g.draw(7)) {
            case 0: log += "val" + std::to_string(i) + " "; if constexpr (isVoid) { t[i]->setVal(NonVoidType<>{}); x = 0; } else if (g.boolean()) t[i]->setVal(Obj<0>(x)); else { Obj<0> o(x); t[i]->setVal(o); } m[i] = {1, x}; break;
            case 1: log += "exc" + std::to_string(i) + " "; t[i]->setException(std::make_exception_ptr(std::runtime_error("e" + std::to_string(x)))); m[i] = {2, x}; break;
            case 2: log += "reset" + std::to_string(i) + " "; t[i]->reset(); m[i] = {}; break;
            case 3: if (i != j) { log += "assign" + std::to_string(i) + "=" + std::to_string(j) + " "; *t[i] = std::move(*t[j]); m[i] = m[j]; if (m[j].k == 1 && !isVoid) m[j].v = -1; if (m[j].k == 2) m[j].v = -1; } break;
            case 4: log += "ctor" + std::to_string(i) + " "; if constexpr (!isVoid) { if (g.boolean()) { t[i] = std::make_unique<R>(Obj<0>(x)); m[i] = {1, x}; break; } } t[i] = std::make_unique<R>(std::make_exception_ptr(std::runtime_error("e" + std::to_string(x)))); m[i] = {2, x}; break;
            case 5: if constexpr (!isVoid) if (m[i].k == 1) { log += "take" + std::to_string(i) + " "; auto o = t[i]->move(); PBT_EQ(o.v, m[i].v, "taken value"); m[i].v = -1; } break;
            case 6: if constexpr (!isVoid) { log += "fail" + std::to_string(i) + " "; Obj<0> o(x); tr::fuse() = 0; bool th = false; try { t[i]->setVal(o); } catch (tr::Boom&) { th = true; } tr::fuse() = -1; PBT_CHECK(th, "failing setVal lets its exception out"); m[i] = {}; } break;
            }
            std::size_t n = 0;
            for (int q = 0; q < 3; ++q) {
                PBT_EQ(t[q]->isVal(), m[q].k == 1, "isVal after " << log); PBT_EQ((bool)*t[q], m[q].k == 1, "bool after " << log);
                bool ok = true; try { auto& r = t[q]->get(); if constexpr (!isVoid) PBT_EQ(r.v, m[q].v, "get after " << log); } catch (std::runtime_error&) { ok = false; } PBT_EQ(ok, m[q].k == 1, "get after " << log);
                if (m[q].k == 2 && m[q].v >= 0) { PBT_EQ(t[q]->what(), "e" + std::to_string(m[q].v), "what"); std::string w; try { t[q]->rethrow(); } catch (std::exception& e) { w = e.what(); } PBT_EQ(w, "e" + std::to_string(m[q].v), "rethrow"); }
                if (m[q].k != 2) { bool th = false; try { (void)t[q]->exception(); } catch (std::exception&) { th = true; } PBT_CHECK(th, "exception() without one"); }
                if (m[q].k == 1 && !isVoid) ++n; }
            tr::verify(n, "after " + log);
        }
    }
    g.describe(log); g.nontrivial(ops > 3);
    tr::verify(0, "after everything is destroyed: " + log);
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "K02",
        .rule = "sequences of up to 20 operations over three holders; non-trivial: more than 3 operations (variant: including a copy, move, swap or failing construction)",
        .assumptions = {"constructing a holder from a reference into itself is outside the property"}},
        {{"variant", variant, 60000, 3000000}, {"uninitialised", uninit, 60000, 2000000}, {"try", tryHolder<Obj<0>>, 60000, 2000000}, {"tryVoid", tryHolder<void>, 20000, 500000}});
}

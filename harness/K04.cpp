// technique: stateful property-based testing: generated operation sequences and thread schedules on queues and buffers against models, deferred calls with generated arguments whose copies, moves and lifetimes are counted
// opt: -O1
#include <common/tracked.hpp>
#include <HXLibs/container/SafeQueue.hpp>
#include <HXLibs/container/MoveApply.hpp>
#include <HXLibs/container/MoveOnlyFunction.hpp>
#include <span>
#include <cstring>
#include <HXLibs/container/ArrayBuf.hpp>
#include <atomic>
#include <deque>
#include <thread>
using namespace pbt; using namespace HX::container; using tr::Obj;
// ---------------------------------------------------------------- deferred calls
struct Arg { static inline long copies = 0; Obj<0> o; explicit Arg(int v) : o(v) {} Arg(Arg const& a) : o(a.o) { ++copies; } Arg(Arg&&) noexcept = default; Arg& operator=(Arg const& a) { o = a.o; ++copies; return *this; } Arg& operator=(Arg&&) noexcept = default; };
struct Seen { std::vector<int> val; std::vector<void const*> at; std::vector<int> kind; int self = 0; };     // kind: 0 T&&, 1 T&, 2 T const&
template <typename A> static void see(Seen& s, A&& a) {
    using T = std::remove_cvref_t<A>; s.at.push_back(&a); s.kind.push_back(std::is_lvalue_reference_v<A&&> ? (std::is_const_v<std::remove_reference_t<A>> ? 2 : 1) : 0);
    if constexpr (std::is_same_v<T, Arg>) { s.val.push_back(a.o.v); if constexpr (!std::is_lvalue_reference_v<A&&>) { Arg taken{std::move(a)}; if (taken.o.v != s.val.back()) s.val.back() = -99; } else if constexpr (!std::is_const_v<std::remove_reference_t<A>>) a.o.v += 1000; }
    else if constexpr (std::is_same_v<T, std::unique_ptr<int>>) { s.val.push_back(a ? *a : -1); if constexpr (!std::is_lvalue_reference_v<A&&>) { auto taken = std::move(a); (void)taken; } }
    else if constexpr (std::is_same_v<T, std::string>) s.val.push_back(std::stoi(a));
    else s.val.push_back((int)a);
}
struct Fn { Seen* s; Obj<1> mine; Fn(Seen* p, int v) : s(p), mine(v) {} template <typename... A> int operator()(A&&... a) { s->self = mine.v; (see(*s, std::forward<A>(a)), ...); return (int)sizeof...(A); } };
struct Want { std::vector<int> val; std::vector<void const*> at; std::vector<int> kind; };
template <typename F, typename Tup> static void fire(Gen& g, F fn, Tup pack, Seen& s, Want const& w, int self, std::string const& what) {
    // the way the pool defers a call: everything is moved into one callable, which may move around before it runs
    auto cb = [fn = std::move(fn), pack = std::move(pack)]() mutable { int n = moveApply(std::move(fn), std::move(pack)); if (n != (int)std::tuple_size_v<Tup>) throw std::runtime_error("result"); };
    using M = MoveOnlyFunctionAny<decltype(cb)>; M m{std::move(cb)}; auto hops = g.draw(4); std::unique_ptr<MoveOnlyFunction> p;
    if (hops == 0) m.call(); else { auto q = std::make_unique<M>(std::move(m)); for (std::size_t i = 1; i < hops; ++i) q = std::make_unique<M>(std::move(*q)); p = std::move(q); PBT_CHECK(s.val.empty(), "moving a function ran it"); p->call(); }
    PBT_EQ(s.val.size(), w.val.size(), "number of arguments seen by " << what); PBT_EQ(s.self, self, "the callable's own state");
    for (std::size_t i = 0; i < w.val.size(); ++i) { PBT_EQ(s.val[i], w.val[i], "argument " << i << " of " << what); PBT_EQ(s.kind[i], w.kind[i], "reference kind (0 rvalue, 1 lvalue, 2 const lvalue) of argument " << i << " of " << what); if (w.at[i]) PBT_CHECK(s.at[i] == w.at[i], "argument " << i << " of " << what << " is not the caller's object"); }
}
static void calls(Gen& g) {
    tr::reset(); Arg::copies = 0; int a = (int)g.draw(900), b = (int)g.draw(900), c = (int)g.draw(900), self = (int)g.draw(1000); std::string what; std::size_t shape = g.draw(8);
    {
        Arg x(a), y(b); Arg const z(c); std::string str = std::to_string(a); std::string const cstr = std::to_string(b); int i = c; Seen s; Fn fn(&s, self); auto T = [](auto&&... v) { return makePreserveTuple(std::forward<decltype(v)>(v)...); }; bool mutX = false;
        switch (shape) {
        case 0: what = "f()"; fire(g, std::move(fn), T(), s, {{}, {}, {}}, self, what); break;
        case 1: what = "f(lvalue, rvalue)"; mutX = true; fire(g, std::move(fn), T(x, std::move(y)), s, {{a, b}, {&x, nullptr}, {1, 0}}, self, what); break;
        case 2: what = "f(const lvalue, rvalue, lvalue)"; mutX = true; fire(g, std::move(fn), T(z, Arg(b), x), s, {{c, b, a}, {&z, nullptr, &x}, {2, 0, 1}}, self, what); break;
        case 3: what = "f(unique_ptr, lvalue)"; mutX = true; fire(g, std::move(fn), T(std::make_unique<int>(c), x), s, {{c, a}, {nullptr, &x}, {0, 1}}, self, what); break;
        case 4: what = "f(rvalue, rvalue, const lvalue)"; fire(g, std::move(fn), T(std::move(x), std::move(y), z), s, {{a, b, c}, {nullptr, nullptr, &z}, {0, 0, 2}}, self, what); break;
        case 5: what = "f(string lvalue, string const lvalue, string rvalue)"; fire(g, std::move(fn), T(str, cstr, std::to_string(c)), s, {{a, b, c}, {&str, &cstr, nullptr}, {1, 2, 0}}, self, what); break;
        case 6: what = "f(int lvalue, int rvalue, lvalue twice)"; mutX = true; fire(g, std::move(fn), T(i, int(b), x, x), s, {{c, b, a, a + 1000}, {&i, nullptr, &x, &x}, {1, 0, 1, 1}}, self, what); if (x.o.v == a + 2000) x.o.v -= 1000; break;
        default: { what = "call in place: f(lvalue, unique_ptr, const lvalue)"; mutX = true; auto pack = T(x, std::make_unique<int>(b), z); int n = moveApply(fn, std::move(pack)); PBT_EQ(n, 3, "result"); PBT_CHECK((s.val == std::vector<int>{a, b, c} && s.kind == std::vector<int>{1, 0, 2} && s.at[0] == &x && s.at[2] == &z), "arguments of a call in place"); break; }
        }
        if (mutX) PBT_EQ(x.o.v, a + 1000, "a change made through a deferred reference"); PBT_EQ(Arg::copies, 0L, "copies made by " << what); PBT_EQ(z.o.v, c, "the const argument afterwards");
    }
    g.describe(what + " with " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c)); g.nontrivial(shape > 0); tr::verify(0, "after " + what);
}
// ---------------------------------------------------------------- queue, one thread
static void queue(Gen& g) {
    tr::reset(); std::string log; bool nt = false;
    {
        SafeQueue<Obj<0>> q; std::deque<int> m; std::size_t ops = 1 + g.size(40), peak = 0;
        for (std::size_t k = 0; k < ops; ++k) {
            int x = (int)g.draw(1000);
            switch (g.draw(7)) {
            case 0: case 1: case 2: log += "+" + std::to_string(x) + " "; q.emplace(x); m.push_back(x); break;
            case 3: { log += "+obj" + std::to_string(x) + " "; Obj<0> o(x); if (g.boolean()) q.emplace(o); else q.emplace(std::move(o)); m.push_back(x); break; }
            case 4: if (m.empty()) break; log += "pop "; q.pop(); m.pop_front(); break;
            case 5: if (m.empty()) break; log += "take "; { auto o = q.frontAndPop(); PBT_EQ(o.v, m.front(), "element taken after " << log); m.pop_front(); } break;
            case 6: { log += "fail "; tr::fuse() = 0; bool t = false; try { q.emplace(x); } catch (tr::Boom&) { t = true; } tr::fuse() = -1; PBT_CHECK(t, "a failing emplace did not throw"); break; }
            }
            peak = std::max(peak, m.size()); PBT_EQ(q.size(), m.size(), "size after " << log); PBT_EQ(q.empty(), m.empty(), "empty after " << log); tr::verify(m.size(), "after " + log);
        }
        nt = peak > 1; if (g.boolean()) while (!m.empty()) { auto o = q.frontAndPop(); PBT_EQ(o.v, m.front(), "element drained after " << log); m.pop_front(); }
    }
    g.describe(log); g.nontrivial(nt); tr::verify(0, "after the queue is gone: " + log);
}
// ---------------------------------------------------------------- queue, many threads
static void threads(Gen& g) {
    std::size_t P = 1 + g.draw(4), C = 1 + g.draw(4), N = 1 + g.size(400); bool taking = g.chance(75, 100); std::vector<unsigned> pace; for (std::size_t i = 0; i < P + C; ++i) pace.push_back((unsigned)g.draw(60));
    g.describe(std::to_string(P) + " producers of " + std::to_string(N) + ", " + std::to_string(C) + (taking ? " takers" : " poppers")); g.nontrivial(P + C > 2);
    struct E { std::size_t p, i; std::unique_ptr<std::string> s; }; SafeQueue<E> q; std::atomic<long> ready{0}; std::atomic<std::size_t> left{P * N}, over{0}; std::atomic<bool> wrong{false}; std::vector<std::vector<std::pair<std::size_t, std::size_t>>> got(C); std::vector<std::thread> ts; std::atomic<bool> go{false};
    auto spin = [](unsigned k) { for (unsigned volatile i = 0; i < k; i = i + 1); };
    for (std::size_t p = 0; p < P; ++p) ts.emplace_back([&, p] { while (!go) std::this_thread::yield(); for (std::size_t i = 0; i < N; ++i) { q.emplace(E{p, i, std::make_unique<std::string>(std::to_string(p * N + i))}); ++ready; spin(pace[p]); } });
    for (std::size_t c = 0; c < C; ++c) ts.emplace_back([&, c] { while (!go) std::this_thread::yield(); while (left.load() > 0) {
        long r = ready.load(); while (r > 0 && !ready.compare_exchange_weak(r, r - 1)); if (r <= 0) { std::this_thread::yield(); continue; }      // one ticket per element
        if (q.empty()) wrong = true; if (q.size() > P * N) ++over;
        if (taking) { auto e = q.frontAndPop(); if (!e.s || *e.s != std::to_string(e.p * N + e.i)) wrong = true; got[c].emplace_back(e.p, e.i); } else q.pop();
        --left; spin(pace[P + c]); } });
    go = true; for (auto& t : ts) t.join();
    PBT_CHECK(!wrong, "an element was missing or damaged while one was promised"); PBT_EQ(over.load(), (std::size_t)0, "sizes larger than everything put in"); PBT_CHECK(q.empty() && q.size() == 0, q.size() << " elements left although all were taken");
    if (taking) { std::vector<int> seen(P * N, 0); for (auto& v : got) { std::vector<long> last(P, -1); for (auto [p, i] : v) { PBT_CHECK(p < P && i < N, "an element nobody put in"); PBT_CHECK((long)i > last[p], "element " << i << " of producer " << p << " was taken after its element " << last[p] << " by the same thread"); last[p] = (long)i; ++seen[p * N + i]; } } for (std::size_t k = 0; k < seen.size(); ++k) PBT_EQ(seen[k], 1, "times element " << k << " was taken"); }
}
// ---------------------------------------------------------------- buffers
template <typename T, std::size_t N> static void buf(Gen& g, char const* name) {
    auto b = std::make_unique<ArrayBuf<T, N>>(); std::vector<T> m; std::string log = std::string(name) + ": "; bool moved = false; std::size_t ops = 1 + g.size(20); PBT_EQ(b->max_size(), N, "max_size");
    auto val = [&] { T t{}; auto x = g.draw(0); std::memcpy(&t, &x, std::min(sizeof t, sizeof x)); return t; };
    for (std::size_t k = 0; k < ops; ++k) {
        switch (g.draw(5)) {
        case 0: case 1: { std::size_t n = g.draw(N - m.size() + 1); log += "write " + std::to_string(n) + "; "; for (std::size_t i = 0; i < n; ++i) { T t = val(); b->data()[b->size() + i] = t; m.push_back(t); } b->addSize(n); break; }
        case 2: { if (m.empty()) break; std::size_t o = g.draw(m.size()), n = 1 + g.draw(m.size() - o); log += "head [" + std::to_string(o) + "," + std::to_string(o + n) + "); "; b->moveToHead(std::span<T const>{b->data() + o, n}); m = std::vector<T>(m.begin() + (long)o, m.begin() + (long)(o + n)); moved |= o > 0; break; }
        case 3: { if (m.empty()) break; std::size_t n = g.draw(m.size() + 1); log += "reset " + std::to_string(n) + "; "; b->resetSize(n); m.resize(n); break; }
        default: if (!g.chance(30, 100)) break; log += "clear; "; b->clear(); m.clear();
        }
        auto const& cb = *b; PBT_EQ(cb.size(), m.size(), "size after " << log); PBT_CHECK(cb.data() == b->data(), "data() differs"); PBT_CHECK(m.empty() || !std::memcmp(cb.data(), m.data(), m.size() * sizeof(T)), "contents after " << log);
    }
    g.describe(log); g.nontrivial(moved);
}
static void buffers(Gen& g) { switch (g.draw(4)) { case 0: buf<char, 64>(g, "char[64]"); break; case 1: buf<int, 16>(g, "int[16]"); break; case 2: buf<std::uint64_t, 9>(g, "uint64[9]"); break; default: buf<char, 1>(g, "char[1]"); } }
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "K04", .rule = "calls: at least one argument; queue: at least two elements held at once; threads: more than one producer or consumer; buffers: a head move from an inner position",
        .assumptions = {"a thread takes from the queue only when an element was promised to it", "buffers are filled and cut only within their bounds, elements are trivially copyable"}, .quickCapS = 40},
        {{"calls", calls, 40000, 400000}, {"queue", queue, 40000, 800000}, {"threads", threads, 2500, 60000, 20, true}, {"buffers", buffers, 20000, 300000}});
}

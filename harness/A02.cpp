// technique: property-based testing (model-based): generated chains of continuations over generated outcomes and attach times, consumed by get, by a further continuation or by coroutines on an event loop with other pending work, compared with the same chain evaluated sequentially
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <thread>
using namespace HX; using namespace HX::container; using pbt::Gen;
struct Boom { int id; };
struct Err : std::runtime_error { using std::runtime_error::runtime_error; };
// an outcome: a value (or void, text empty) or an exception
struct Out { bool ok; std::string v; };
static std::string str(Out const& o) { return (o.ok ? "value '" : "exception '") + o.v + "'"; }
template <class T> struct Conv;
template <> struct Conv<std::string> { static std::string to(std::string s) { return s; } static std::string from(std::string s) { return s; } };
template <> struct Conv<std::unique_ptr<std::string>> { static auto to(std::string s) { return std::make_unique<std::string>(std::move(s)); } static std::string from(std::unique_ptr<std::string> p) { return p ? *p : "<moved away>"; } };
template <> struct Conv<std::vector<int>> { static std::vector<int> to(std::string s) { return {s.begin(), s.end()}; } static std::string from(std::vector<int> v) { return {v.begin(), v.end()}; } };
static std::string why(std::exception_ptr p) { try { if (!p) return "<null exception>"; std::rethrow_exception(p); } catch (Boom const& b) { return "boom " + std::to_string(b.id); } catch (Err const& e) { return e.what(); } catch (std::exception const& e) { return std::string("std: ") + e.what(); } catch (...) { return "<other>"; } }
[[noreturn]] static void raise(int how, int id) { if (how) throw Boom{id}; throw Err("error " + std::to_string(id)); }
static std::string raised(int how, int id) { return how ? "boom " + std::to_string(id) : "error " + std::to_string(id); }
enum class T { Str, Uptr, Vec, Void };               // what a link produces
enum class K { Return, Throw, TryValue, TryError, PassOn };
struct Link { T t; K k; int how; int delayUs; int attachUs; };
struct World { std::mutex m; std::vector<std::string> log; std::vector<int> ran; std::string err; void fail(std::string s) { std::lock_guard _{m}; if (err.empty()) err = std::move(s); } };
struct Chain { int id; T t0; bool throws0; int how0; int delay0; std::vector<Link> links; int consume; int consumeUs; std::vector<Out> want; bool inner = false; };
template <class X> static Out outOf(Try<X>& t) { if (!t) return {false, why(t.exception())}; if constexpr (std::is_void_v<X>) return {true, ""}; else return {true, Conv<X>::from(t.move())}; }
template <class X> static Out outOfFuture(FutureResult<X>& f) { try { if constexpr (std::is_void_v<X>) { f.get(); return {true, ""}; } else return {true, Conv<X>::from(f.get())}; } catch (...) { return {false, why(std::current_exception())}; } }
static void nap(int us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); else if (us < 0) std::this_thread::yield(); }
static int tagOf(Chain const& c, std::size_t i) { return c.id * 10 + (int)i + 1; }
static Out expect(Chain const& c, Link const& l, std::size_t i, Out const& prev) {
    auto add = (prev.ok ? prev.v : "!" + prev.v) + "." + std::to_string(tagOf(c, i)); if (l.t == T::Void) add = "";
    switch (l.k) { case K::Return: case K::TryValue: return {true, add}; case K::Throw: case K::TryError: return {false, raised(l.how, tagOf(c, i))}; case K::PassOn: return prev; } return {};
}
template <class X> static void consume(Chain const& c, World& w, FutureResult<X>&& f, coroutine::EventLoop* loop, std::function<void()> done);
template <class X> static void attach(Chain const& c, World& w, std::size_t i, FutureResult<X>&& f, coroutine::EventLoop* loop, std::function<void()> done);
// what link i sees, checked; then what it produces
template <class R, class X> static auto body(Chain const& c, World& w, std::size_t i) {
    return [&c, &w, i, guard = std::make_unique<int>(7)](Try<X> t) {
        auto& l = c.links[i]; bool guardOk = guard && *guard == 7; Out seen = outOf(t); { std::lock_guard _{w.m}; ++w.ran[(std::size_t)tagOf(c, i)]; } auto& want = c.want[i];
        if (!guardOk) w.fail("the callable's own state was lost"); if (seen.ok != want.ok || seen.v != want.v) w.fail("link " + std::to_string(i + 1) + " of chain " + std::to_string(c.id) + " was called with " + str(seen) + " instead of " + str(want));
        nap(l.delayUs); auto v = c.want[i + 1].v;
        if (l.k == K::Throw) raise(l.how, tagOf(c, i));
        if constexpr (IsTryTypeVal<R>) { using Y = typename R::TryType; if (l.k == K::PassOn ? !seen.ok : l.k == K::TryError) { std::exception_ptr p; try { if (l.k == K::PassOn) { if (seen.v.starts_with("boom ")) throw Boom{std::stoi(seen.v.substr(5))}; throw Err(seen.v); } raise(l.how, tagOf(c, i)); } catch (...) { p = std::current_exception(); } return R{p}; }
            if constexpr (std::is_void_v<Y>) return R{NonVoidType<>{}}; else return R{Conv<Y>::to(v)}; }
        else if constexpr (std::is_void_v<R>) return; else return Conv<R>::to(v);
    };
}
template <class R, class X> static void attachAs(Chain const& c, World& w, std::size_t i, FutureResult<X>&& f, coroutine::EventLoop* loop, std::function<void()> done) { attach(c, w, i + 1, std::move(f).thenTry(body<R, X>(c, w, i)), loop, std::move(done)); }
template <class X> static void attach(Chain const& c, World& w, std::size_t i, FutureResult<X>&& f, coroutine::EventLoop* loop, std::function<void()> done) {
    if constexpr (!std::is_same_v<X, X>) return;
    if (i == c.links.size()) return consume<X>(c, w, std::move(f), loop, std::move(done));
    auto& l = c.links[i]; nap(l.attachUs); bool tr = l.k == K::TryValue || l.k == K::TryError || l.k == K::PassOn;
    switch (l.t) {
    case T::Str: tr ? attachAs<Try<std::string>, X>(c, w, i, std::move(f), loop, std::move(done)) : attachAs<std::string, X>(c, w, i, std::move(f), loop, std::move(done)); break;
    case T::Uptr: tr ? attachAs<Try<std::unique_ptr<std::string>>, X>(c, w, i, std::move(f), loop, std::move(done)) : attachAs<std::unique_ptr<std::string>, X>(c, w, i, std::move(f), loop, std::move(done)); break;
    case T::Vec: tr ? attachAs<Try<std::vector<int>>, X>(c, w, i, std::move(f), loop, std::move(done)) : attachAs<std::vector<int>, X>(c, w, i, std::move(f), loop, std::move(done)); break;
    case T::Void: tr ? attachAs<Try<void>, X>(c, w, i, std::move(f), loop, std::move(done)) : attachAs<void, X>(c, w, i, std::move(f), loop, std::move(done)); break;
    }
}
static void judge(Chain const& c, World& w, Out const& got) { auto& want = c.want.back(); if (got.ok != want.ok || got.v != want.v) w.fail("chain " + std::to_string(c.id) + " ended with " + str(got) + " instead of " + str(want)); std::lock_guard _{w.m}; ++w.ran[(std::size_t)(c.id * 10)]; }
template <class X> static coroutine::Task<> await(Chain const& c, World& w, FutureResult<X> f, coroutine::EventLoop& loop, std::thread::id home) {
    Out got; try { if constexpr (std::is_void_v<X>) { co_await std::move(f).via(loop); got = {true, ""}; } else { auto v = co_await std::move(f).via(loop); got = {true, Conv<X>::from(std::move(v))}; } } catch (...) { got = {false, why(std::current_exception())}; }
    if (std::this_thread::get_id() != home) w.fail("the awaiting coroutine went on outside its event loop's thread");
    judge(c, w, got); co_await loop.makeTimer().yield();
    int p[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) _exit(98); char a = 'k', b = 0; if (::send(p[1], &a, 1, 0) != 1) _exit(98); int n = co_await loop.makeAioTask().prepRecv(p[0], std::span<char>{&b, 1}, 0); ::close(p[0]); ::close(p[1]); if (n != 1 || b != 'k') w.fail("an operation after awaiting the future failed");
}
static std::mutex gKeep; static std::vector<std::function<void()>> gStart;   // coroutines to start on the loop
template <class X> static void consume(Chain const& c, World& w, FutureResult<X>&& f, coroutine::EventLoop* loop, std::function<void()> done) {
    nap(c.consumeUs);
    if (c.consume == 0) { auto g = std::move(f); judge(c, w, outOfFuture(g)); done(); return; }
    if (c.consume == 1) { try { f.wait(); } catch (...) {} auto g = std::move(f); judge(c, w, outOfFuture(g)); done(); return; }
    if (c.consume == 2) { std::move(f).thenTry([&c, &w, done](Try<X> t) { judge(c, w, outOf(t)); done(); }); return; }
    auto holder = std::make_shared<FutureResult<X>>(std::move(f)); std::lock_guard _{gKeep};
    gStart.push_back([&c, &w, holder, loop, done] { auto root = [](Chain const& c, World& w, std::shared_ptr<FutureResult<X>> h, coroutine::EventLoop& loop, std::function<void()> done) -> coroutine::RootTask<> { co_await await<X>(c, w, std::move(*h), loop, std::this_thread::get_id()); done(); }; root(c, w, holder, *loop, done).detach(); });
}
static void run(Gen& g, bool loopOnly) {
    std::size_t n = 1 + g.size(loopOnly ? 8 : 5); std::vector<Chain> cs; std::string d; int threads = 1 + (int)g.draw(4); bool later = g.chance(40, 100); std::size_t aw = 0, links = 0;
    auto us = [&] { return g.chance(50, 100) ? (g.boolean() ? -1 : 0) : (int)g.draw(400); };
    for (std::size_t i = 0; i < n; ++i) {
        Chain c; c.id = (int)i + 1; c.t0 = (T)g.draw(4); c.throws0 = g.chance(35, 100); c.how0 = (int)g.draw(2); c.delay0 = us(); c.consume = loopOnly ? 3 : (int)g.draw(4); c.consumeUs = us(); std::size_t m = g.size(5); links += m; aw += c.consume == 3;
        c.want.push_back(c.throws0 ? Out{false, raised(c.how0, c.id * 10)} : Out{true, c.t0 == T::Void ? "" : "start " + std::to_string(c.id)}); T cur = c.t0; d += "chain " + std::to_string(c.id) + ": " + str(c.want[0]);
        for (std::size_t k = 0; k < m; ++k) { Link l; l.t = (T)g.draw(4); l.k = (K)g.draw(5); if (l.k == K::PassOn) l.t = cur; l.how = (int)g.draw(2); l.delayUs = us(); l.attachUs = us(); c.links.push_back(l); c.want.push_back(expect(c, l, k, c.want.back())); cur = l.t; d += " -> " + str(c.want.back()) + (l.attachUs > 0 ? " (attached late)" : ""); }
        d += (char const*[]){", get; ", ", wait and get; ", ", callback; ", ", awaited; "}[c.consume]; cs.push_back(std::move(c));
    }
    long timerUs = aw && g.boolean() ? (long)g.draw(1500) : 0; bool io = aw && g.boolean(); g.describe(std::to_string(threads) + " threads" + (later ? ", started late" : "") + (timerUs ? ", timer pending" : "") + (io ? ", receive pending" : "") + ": " + d); g.nontrivial(links > 0 && (n > 1 || links > 1)); g.label(aw ? "awaited" : "not awaited");
    World w; w.ran.assign((n + 2) * 10, 0); std::size_t finished = 0, need = n; std::mutex fm; std::condition_variable cv; auto done = [&] { std::lock_guard _{fm}; ++finished; cv.notify_all(); };
    gStart.clear(); coroutine::EventLoop loop; int p[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) _exit(98); bool gotIo = false, gotTimer = false;
    {
        ThreadPool pool; pool.setFixedThreadNum((uint32_t)threads); std::thread starter; struct J { std::thread& t; ~J() { if (t.joinable()) t.join(); } } j{starter};
        if (later) starter = std::thread([&] { nap(200); pool.run<ThreadPool::Model::FixedSizeAndNoCheck>(); }); else pool.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        for (auto& c : cs) {
            auto start = [&]<class X>() { attach<X>(c, w, 0, pool.addTask([&c]() -> X { nap(c.delay0); if (c.throws0) raise(c.how0, c.id * 10); if constexpr (!std::is_void_v<X>) return Conv<X>::to(c.want[0].v); }), &loop, done); };
            switch (c.t0) { case T::Str: start.template operator()<std::string>(); break; case T::Uptr: start.template operator()<std::unique_ptr<std::string>>(); break; case T::Vec: start.template operator()<std::vector<int>>(); break; case T::Void: start.template operator()<void>(); break; }
        }
        auto timer = [&]() -> coroutine::RootTask<> { co_await loop.makeTimer().sleepFor(std::chrono::microseconds(timerUs)); gotTimer = true; }; auto rd = [&]() -> coroutine::RootTask<> { char b = 0; gotIo = co_await loop.makeAioTask().prepRecv(p[0], std::span<char>{&b, 1}, 0) == 1; };
        std::thread feeder; if (timerUs) timer().detach(); if (io) { rd().detach(); feeder = std::thread([&] { nap(700); char c = 1; (void)!::send(p[1], &c, 1, 0); }); }
        for (auto& s : gStart) s();
        if (!gStart.empty() || timerUs || io) loop.run();
        if (feeder.joinable()) feeder.join();
        std::unique_lock lk{fm}; cv.wait_for(lk, std::chrono::seconds(10), [&] { return finished == need; });
    }
    ::close(p[0]); ::close(p[1]); PBT_CHECK(w.err.empty(), w.err); PBT_EQ(finished, need, "chains that ended (the event loop has run until nothing was left)");
    if (timerUs) PBT_CHECK(gotTimer, "the loop ended with a timer pending"); if (io) PBT_CHECK(gotIo, "the loop ended with a receive pending");
    for (auto& c : cs) { PBT_EQ(w.ran[(std::size_t)(c.id * 10)], 1, "how often chain " << c.id << " ended"); for (std::size_t i = 0; i < c.links.size(); ++i) PBT_EQ(w.ran[(std::size_t)tagOf(c, i)], 1, "how often link " << i + 1 << " of chain " << c.id << " ran"); }
}
static void chains(Gen& g) { run(g, false); }
static void loops(Gen& g) { run(g, true); }
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "A02",
        .rule = "non-trivial: at least two links, or several chains with at least one; chains of up to 5 links over 4 result types, each returning, throwing, returning a wrapped value or exception or passing its argument on, attached before or after the previous link is done, on pools of 1 to 4 threads, consumed by get, wait and get, a callback or a coroutine on an event loop with a timer and a receive pending",
        .assumptions = {"each future is consumed once", "the pool outlives its futures' completion"}},
        {{"chains", chains, 12000, 400000, 30, true}, {"awaited", loops, 8000, 300000, 30, true}});
}

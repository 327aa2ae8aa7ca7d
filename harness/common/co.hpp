// Generated coroutine scripts shared by the checks of whenAll, whenAny and tasks.
#pragma once
#include <common/net.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
namespace co {
using namespace HX; using pbt::Gen; using us = std::chrono::microseconds;
struct Boom { int id; };
struct Script { enum K { Yield, Sleep, Sub, Io, All, Any } ; struct Step { K k; long n; std::vector<std::shared_ptr<Script>> subs; }; int id = 0; std::vector<Step> steps; bool throws = false; };
using SP = std::shared_ptr<Script>;
struct World {
    coroutine::EventLoop loop; std::string err; std::map<int, int> started, finished; std::vector<int> order; long frames = 0; std::size_t resumed = 0, io = 0; std::map<int, bool> dead;
    void fail(std::string const& s) { if (err.empty()) err = s; }
};
struct Frame { World& w; int id; Frame(World& x, int i) : w(x), id(i) { ++w.frames; if (w.started[i]++) w.fail("coroutine " + std::to_string(i) + " started twice"); } Frame(Frame const&) = delete; ~Frame() { --w.frames; if (w.dead[id]) w.fail("the frame of coroutine " + std::to_string(id) + " was destroyed twice"); w.dead[id] = true; } };
struct Pair { int fd[2]; Pair() { if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd)) _exit(98); } Pair(Pair const&) = delete; ~Pair() { ::close(fd[0]); ::close(fd[1]); } };
// what a coroutine with the given result type returns for its id
template <class T> struct Val;
template <> struct Val<void> { static constexpr char const* name = "void"; };
template <> struct Val<int> { static constexpr char const* name = "int"; static int make(int id) { return id * 7 + 1; } static bool is(int const& v, int id) { return v == make(id); } };
template <> struct Val<std::string> { static constexpr char const* name = "string"; static std::string make(int id) { return "a string that does not fit into itself " + std::to_string(id); } static bool is(std::string const& v, int id) { return v == make(id); } };
template <> struct Val<std::unique_ptr<int>> { static constexpr char const* name = "unique_ptr"; static std::unique_ptr<int> make(int id) { return std::make_unique<int>(id); } static bool is(std::unique_ptr<int> const& v, int id) { return v && *v == id; } };
template <> struct Val<std::vector<std::string>> { static constexpr char const* name = "vector"; static std::vector<std::string> make(int id) { return std::vector<std::string>(3, std::to_string(id)); } static bool is(std::vector<std::string> const& v, int id) { return v == make(id); } };
template <class T> coroutine::Task<T> run(World& w, SP s);
inline coroutine::Task<> step(World& w, SP s, std::size_t i) {
    auto& st = s->steps[i];
    switch (st.k) {
    case Script::Yield: for (long k = 0; k < st.n; ++k) co_await w.loop.makeTimer().yield(); break;
    case Script::Sleep: co_await w.loop.makeTimer().sleepFor(us(st.n)); break;
    case Script::Sub: { bool threw = false; try { auto v = co_await run<std::string>(w, st.subs[0]); if (!Val<std::string>::is(v, st.subs[0]->id)) w.fail("a nested call returned a wrong value"); } catch (Boom& b) { threw = true; if (b.id != st.subs[0]->id) w.fail("a nested call threw something else"); } if (threw != st.subs[0]->throws) w.fail("a nested call returned although it threw, or threw although it returned"); break; }
    case Script::Io: { Pair p; ++w.io; char c = 'q', d = 0; if (::send(p.fd[1], &c, 1, 0) != 1) _exit(98); int r = co_await w.loop.makeAioTask().prepRecv(p.fd[0], std::span<char>{&d, 1}, 0); if (r != 1 || d != 'q') w.fail("recv returned " + std::to_string(r)); break; }
    case Script::All: {
        auto [a, b] = co_await (run<int>(w, st.subs[0]) && run<void>(w, st.subs[1]));
        for (int q : {0, 1}) if (!w.finished[st.subs[(std::size_t)q]->id]) w.fail("a nested wait for all ended before all had finished");
        if (a.isVal() == st.subs[0]->throws || b.isVal() == st.subs[1]->throws || (a.isVal() && !Val<int>::is(a.get(), st.subs[0]->id))) w.fail("a nested wait for all delivered wrong outcomes"); break; }
    case Script::Any: {
        auto before = w.order.size(); int win = -1; std::size_t idx = 9;
        try { auto r = co_await (run<int>(w, st.subs[0]) || run<std::string>(w, st.subs[1])); idx = r.index(); win = st.subs[idx]->id; if (idx == 0 ? !Val<int>::is(r.get<0>(), win) : !Val<std::string>::is(r.get<1>(), win)) w.fail("a nested race delivered a wrong value"); } catch (Boom& b) { win = b.id; }
        int first = -1; for (std::size_t k = before; k < w.order.size() && first < 0; ++k) for (int q : {0, 1}) if (w.order[k] == st.subs[(std::size_t)q]->id) first = w.order[k];
        if (first != win) w.fail("a nested race ended with coroutine " + std::to_string(win) + " although " + std::to_string(first) + " finished first");
        break; }
    }
}
template <class T> coroutine::Task<T> run(World& w, SP s) {
    Frame f{w, s->id};
    for (std::size_t i = 0; i < s->steps.size(); ++i) { co_await step(w, s, i); if (w.dead[s->id]) w.fail("coroutine " + std::to_string(s->id) + " ran on after its frame was destroyed"); }
    ++w.finished[s->id]; w.order.push_back(s->id); if (s->throws) throw Boom{s->id};
    if constexpr (std::is_void_v<T>) co_return; else co_return Val<T>::make(s->id);
}
struct Opt { bool io = true, nest = true; int depth = 2; };
inline SP script(Gen& g, int& ids, std::string& d, Opt o) {
    auto s = std::make_shared<Script>(); s->id = ++ids; d += "#" + std::to_string(s->id) + "{"; std::size_t n = g.size(3);
    for (std::size_t i = 0; i < n; ++i) switch (g.draw(6)) {
        case 0: case 1: s->steps.push_back({Script::Yield, 1 + (long)g.draw(3), {}}); d += " yield*" + std::to_string(s->steps.back().n); break;
        case 2: s->steps.push_back({Script::Sleep, (long)g.draw(4) * 200, {}}); d += " sleep(" + std::to_string(s->steps.back().n) + "us)"; break;
        case 3: if (o.io) { s->steps.push_back({Script::Io, 0, {}}); d += " recv"; } break;
        default: if (o.nest && o.depth > 0) { Opt p = o; --p.depth; auto k = (Script::K[]){Script::Sub, Script::All, Script::Any}[g.draw(3)]; d += k == Script::Sub ? " call " : k == Script::All ? " all(" : " any("; Script::Step st{k, 0, {}}; st.subs.push_back(script(g, ids, d, p)); if (k != Script::Sub) { d += ", "; st.subs.push_back(script(g, ids, d, p)); d += ")"; } s->steps.push_back(std::move(st)); } break;
    }
    s->throws = g.chance(20, 100); if (s->throws) d += " throw"; d += " }"; return s;
}
} // namespace co

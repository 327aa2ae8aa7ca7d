// technique: property-based testing: generated coroutines of several result types (yielding, sleeping, receiving, nesting, throwing) awaited together in several shapes, monitored against a log of their finishes
// opt: -O1
#include <common/co.hpp>
using namespace co; using pbt::quote;
template <class R> static void outcome(World& w, R& r, SP const& s, std::size_t pos) {
    using V = std::remove_cvref_t<decltype(r.get())>; auto at = "position " + std::to_string(pos) + " (coroutine " + std::to_string(s->id) + ")";
    if (r.isVal() == s->throws) return w.fail(at + (s->throws ? " holds a value although it threw" : " holds no value"));
    if (s->throws) { try { r.rethrow(); w.fail(at + ": nothing rethrown"); } catch (Boom& b) { if (b.id != s->id) w.fail(at + " holds the exception of coroutine " + std::to_string(b.id)); } catch (...) { w.fail(at + " holds a foreign exception"); } }
    else if constexpr (requires { Val<V>::is(r.get(), 0); }) { if (!Val<V>::is(r.get(), s->id)) w.fail(at + " holds a wrong value"); auto m = r.move(); if (!Val<V>::is(m, s->id)) w.fail(at + ": the moved value is wrong"); }
}
static void verify(World& w, std::vector<SP> const& s, auto& tup) { ++w.resumed; for (auto& x : s) if (w.finished[x->id] != 1) w.fail("the wait ended although coroutine " + std::to_string(x->id) + " has finished " + std::to_string(w.finished[x->id]) + " times"); [&]<std::size_t... I>(std::index_sequence<I...>) { (outcome(w, std::get<I>(tup), s[I], I), ...); }(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(tup)>>>{}); }
using UP = std::unique_ptr<int>; using VS = std::vector<std::string>; using S = std::string;
static constexpr std::size_t kArity[] = {1, 2, 2, 3, 3, 4, 4, 5, 2, 3, 3, 4, 2};
static char const* kShape[] = {"whenAll(int)", "whenAll(void,void)", "whenAll(string,unique_ptr)", "whenAll(vector,void,int)", "whenAll(int,int,int)", "whenAll(unique_ptr,string,void,int)", "whenAll(string*4)", "whenAll(void,int,string,unique_ptr,vector)", "string && int", "(void && string) && vector", "int && (string && void)", "(int && string) && (unique_ptr && vector)", "whenAll(sleep awaiter, yield awaiter, recv, void, int)"};
static coroutine::RootTask<> waiter(World& w, std::size_t shape, std::vector<SP> s, bool& done, long pause) {
    using coroutine::whenAll;
    if (pause) co_await w.loop.makeTimer().sleepFor(us(pause));
    switch (shape) {
    case 0: { auto t = co_await whenAll(run<int>(w, s[0])); verify(w, s, t); break; }
    case 1: { auto t = co_await whenAll(run<void>(w, s[0]), run<void>(w, s[1])); verify(w, s, t); break; }
    case 2: { auto t = co_await whenAll(run<S>(w, s[0]), run<UP>(w, s[1])); verify(w, s, t); break; }
    case 3: { auto t = co_await whenAll(run<VS>(w, s[0]), run<void>(w, s[1]), run<int>(w, s[2])); verify(w, s, t); break; }
    case 4: { auto t = co_await whenAll(run<int>(w, s[0]), run<int>(w, s[1]), run<int>(w, s[2])); verify(w, s, t); break; }
    case 5: { auto t = co_await whenAll(run<UP>(w, s[0]), run<S>(w, s[1]), run<void>(w, s[2]), run<int>(w, s[3])); verify(w, s, t); break; }
    case 6: { auto t = co_await whenAll(run<S>(w, s[0]), run<S>(w, s[1]), run<S>(w, s[2]), run<S>(w, s[3])); verify(w, s, t); break; }
    case 7: { auto t = co_await whenAll(run<void>(w, s[0]), run<int>(w, s[1]), run<S>(w, s[2]), run<UP>(w, s[3]), run<VS>(w, s[4])); verify(w, s, t); break; }
    case 8: { auto t = co_await (run<S>(w, s[0]) && run<int>(w, s[1])); verify(w, s, t); break; }
    case 9: { auto t = co_await (run<void>(w, s[0]) && run<S>(w, s[1]) && run<VS>(w, s[2])); verify(w, s, t); break; }
    case 10: { auto t = co_await (run<int>(w, s[0]) && (run<S>(w, s[1]) && run<void>(w, s[2]))); verify(w, s, t); break; }
    case 11: { auto t = co_await ((run<int>(w, s[0]) && run<S>(w, s[1])) && (run<UP>(w, s[2]) && run<VS>(w, s[3]))); verify(w, s, t); break; }
    case 12: {
        int p[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) _exit(98); char b[4]; if (::send(p[1], "abc", 3, 0) != 3) _exit(98); auto until = std::chrono::system_clock::now() + us(400);
        auto [a, y, r, v, i] = co_await whenAll(w.loop.makeTimer().sleepUntil(until), w.loop.makeTimer().yield(), w.loop.makeAioTask().prepRecv(p[0], std::span<char>{b, 4}, 0), run<void>(w, s[0]), run<int>(w, s[1]));
        if (std::chrono::system_clock::now() < until || !a.isVal() || !y.isVal()) w.fail("the wait ended before its sleep"); if (!r.isVal() || r.get() != 3 || std::memcmp(b, "abc", 3)) w.fail("the wait delivered a wrong receive result"); outcome(w, v, s[0], 3); outcome(w, i, s[1], 4); ++w.resumed; for (auto& x : s) if (w.finished[x->id] != 1) w.fail("the wait ended although coroutine " + std::to_string(x->id) + " has not finished"); ::close(p[0]); ::close(p[1]); break; }
    }
    if (done) w.fail("a wait ended twice"); done = true;
}
static void waits(Gen& g) {
    World w; std::string d; int ids = 0; std::size_t n = 1 + g.size(3), total = 0, susp = 0; bool done[5] = {}; std::vector<std::pair<std::size_t, std::vector<SP>>> ws; std::vector<long> pause;
    for (std::size_t i = 0; i < n; ++i) { auto sh = g.draw(std::size(kShape)); std::vector<SP> s; d += std::string(kShape[sh]) + ": "; for (std::size_t k = 0; k < kArity[sh]; ++k) { s.push_back(script(g, ids, d, {})); susp += !s.back()->steps.empty(); } pause.push_back(g.chance(30, 100) ? (long)g.draw(3) * 300 : 0); d += " after " + std::to_string(pause.back()) + "us; "; total += s.size(); ws.push_back({sh, s}); }
    g.describe(d); g.nontrivial(susp > 1); if (susp == 0) g.label("nothing suspends");
    for (std::size_t i = 0; i < n; ++i) waiter(w, ws[i].first, ws[i].second, done[i], pause[i]).detach();
    w.loop.run(); PBT_CHECK(w.err.empty(), w.err); for (std::size_t i = 0; i < n; ++i) PBT_CHECK(done[i], "everything else has finished, but wait " << i << " never ended"); PBT_EQ(w.resumed, n, "waits that ended"); PBT_EQ(w.frames, 0L, "coroutine frames left");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "A03", .rule = "at least two of the awaited coroutines suspend",
        .assumptions = {"the awaited coroutines live until the wait has ended", "one event loop"}, .quickCapS = 60},
        {{"waits", waits, 20000, 500000, 40, true}});
}

// technique: property-based testing: generated coroutines of several result types (yielding, sleeping, receiving, nesting, throwing) and raw receives raced in several shapes, monitored against a log of their finishes and of their frames
// opt: -O1
#include <common/co.hpp>
using namespace co; using pbt::quote;
using UP = std::unique_ptr<int>; using VS = std::vector<std::string>; using S = std::string;
static constexpr std::size_t kArity[] = {2, 2, 2, 3, 4, 2, 3, 3, 4, 2, 2, 1};
static char const* kShape[] = {"whenAny(unique_ptr,vector)", "whenAny(int,void)", "whenAny(string,unique_ptr)", "whenAny(int,int,int)", "whenAny(void,string,vector,int)", "string || int", "(void || string) || vector", "int || (string || void)", "(int || string) || (unique_ptr || vector)", "whenAny(recv, string, int)", "whenAny(int, sleep awaiter, void)", "whenAny(recv, string, recv)"};
static void ids(SP const& s, std::vector<int>& out) { out.push_back(s->id); for (auto& st : s->steps) for (auto& x : st.subs) ids(x, out); }
struct Race { std::size_t shape; std::vector<SP> s; long pause, tail; int how; long delay, sleep; bool done = false; };
// winner: index into r.s of the racer that delivered, or -1 when an awaiter won
static void over(World& w, Race& r, int winner, std::size_t from) {
    int first = -1; for (std::size_t k = from; k < w.order.size() && first < 0; ++k) for (std::size_t q = 0; q < r.s.size(); ++q) if (w.order[k] == r.s[q]->id) { first = (int)q; break; }
    if (first != winner) w.fail("the race ended with racer " + std::to_string(winner) + " although racer " + std::to_string(first) + " finished first");
    for (std::size_t q = 0; q < r.s.size(); ++q) {
        if ((int)q != winner && w.finished[r.s[q]->id]) w.fail("racer " + std::to_string(q) + " finished too");
        std::vector<int> v; ids(r.s[q], v); for (int i : v) if (w.started[i] && !w.dead[i]) w.fail("the race is over, but the frame of coroutine " + std::to_string(i) + " is still alive");
    }
}
template <class T> static void value(World& w, T const& v, SP const& s) { if constexpr (requires { Val<T>::is(v, 0); }) { if (!Val<T>::is(v, s->id)) w.fail("the race delivered a value that coroutine " + std::to_string(s->id) + " did not return"); } if (s->throws) w.fail("the race delivered a value although coroutine " + std::to_string(s->id) + " threw"); }
template <std::size_t... P> static int take(World& w, Race& r, auto& res, std::index_sequence<P...>) {
    int win = -2; [[maybe_unused]] bool got = ((res.index() == P ? (value(w, res.template get<P>(), r.s[P]), win = (int)P, true) : false) || ...); if (win < 0) w.fail("the race ended with index " + std::to_string(res.index())); return win;
}
template <std::size_t N> static int take(World& w, Race& r, auto res) { return take(w, r, res, std::make_index_sequence<N>{}); }
static int thrown(World& w, Race& r, Boom& b) { for (std::size_t q = 0; q < r.s.size(); ++q) if (r.s[q]->id == b.id) { if (!r.s[q]->throws) w.fail("?"); return (int)q; } w.fail("the race threw the exception of coroutine " + std::to_string(b.id) + ", which is none of its racers"); return -2; }
static coroutine::RootTask<> sender(World& w, std::shared_ptr<Pair> p, long delay, char const* text) { if (delay >= 0) { if (delay) co_await w.loop.makeTimer().sleepFor(us(delay)); if (::send(p->fd[1], text, std::strlen(text), MSG_NOSIGNAL | MSG_DONTWAIT) < 0) w.fail("send failed"); } co_return; }
static coroutine::RootTask<> racer(World& w, Race& r) {
    using coroutine::whenAny; auto& s = r.s;
    if (r.pause) co_await w.loop.makeTimer().sleepFor(us(r.pause));
    auto from = w.order.size(); int win = -2; std::shared_ptr<Pair> p, p2; std::unique_ptr<char[]> buf, buf2; int sent = 0;
    if (r.shape == 9 || r.shape == 11) { p = std::make_shared<Pair>(); p2 = std::make_shared<Pair>(); buf = std::make_unique<char[]>(8); buf2 = std::make_unique<char[]>(8); sender(w, p, r.delay, "abc").detach(); if (r.shape == 11) sender(w, p2, r.sleep, "xyz").detach(); }
    try {
        switch (r.shape) {
        case 0: win = take<2>(w, r, co_await whenAny(run<UP>(w, s[0]), run<VS>(w, s[1]))); break;
        case 1: win = take<2>(w, r, co_await whenAny(run<int>(w, s[0]), run<void>(w, s[1]))); break;
        case 2: win = take<2>(w, r, co_await whenAny(run<S>(w, s[0]), run<UP>(w, s[1]))); break;
        case 3: win = take<3>(w, r, co_await whenAny(run<int>(w, s[0]), run<int>(w, s[1]), run<int>(w, s[2]))); break;
        case 4: win = take<4>(w, r, co_await whenAny(run<void>(w, s[0]), run<S>(w, s[1]), run<VS>(w, s[2]), run<int>(w, s[3]))); break;
        case 5: win = take<2>(w, r, co_await (run<S>(w, s[0]) || run<int>(w, s[1]))); break;
        case 6: win = take<3>(w, r, co_await (run<void>(w, s[0]) || run<S>(w, s[1]) || run<VS>(w, s[2]))); break;
        case 7: win = take<3>(w, r, co_await (run<int>(w, s[0]) || (run<S>(w, s[1]) || run<void>(w, s[2])))); break;
        case 8: win = take<4>(w, r, co_await ((run<int>(w, s[0]) || run<S>(w, s[1])) || (run<UP>(w, s[2]) || run<VS>(w, s[3])))); break;
        case 9: { auto v = co_await whenAny(w.loop.makeAioTask().prepRecv(p->fd[0], std::span<char>{buf.get(), 8}, 0), run<S>(w, s[0]), run<int>(w, s[1])); win = (int)v.index() - 1; if (win < 0) { if (v.template get<0>() != 3 || std::memcmp(buf.get(), "abc", 3)) w.fail("the race delivered a wrong receive result"); sent = 1; } else if (win == 0) value(w, v.template get<1>(), s[0]); else value(w, v.template get<2>(), s[1]); break; }
        case 10: { auto until = std::chrono::system_clock::now() + us(r.sleep); auto v = co_await whenAny(run<int>(w, s[0]), w.loop.makeTimer().sleepUntil(until), run<void>(w, s[1])); win = v.index() == 0 ? 0 : v.index() == 2 ? 1 : -1; if (win == 0) value(w, v.template get<0>(), s[0]); if (win == 1 && s[1]->throws) w.fail("no exception"); if (win < 0 && std::chrono::system_clock::now() < until) w.fail("a sleep won before its time"); break; }
        case 11: { auto v = co_await whenAny(w.loop.makeAioTask().prepRecv(p->fd[0], std::span<char>{buf.get(), 8}, 0), run<S>(w, s[0]), w.loop.makeAioTask().prepRecv(p2->fd[0], std::span<char>{buf2.get(), 8}, 0)); win = v.index() == 1 ? 0 : -1; if (win == 0) value(w, v.template get<1>(), s[0]); else { sent = v.index() == 0 ? 1 : 2; if ((sent == 1 ? v.template get<0>() : v.template get<2>()) != 3 || std::memcmp(sent == 1 ? buf.get() : buf2.get(), sent == 1 ? "abc" : "xyz", 3)) w.fail("the race delivered a wrong receive result"); } break; }
        }
    } catch (Boom& b) { win = thrown(w, r, b); }
    if (win != -2) over(w, r, win, from);
    if (r.done) w.fail("a race ended twice"); r.done = true;
    std::string was(buf ? std::string(buf.get(), 8) : ""), was2(buf2 ? std::string(buf2.get(), 8) : "");
    if (r.tail) co_await w.loop.makeTimer().sleepFor(us(r.tail));
    if (buf && (was != std::string(buf.get(), 8) || was2 != std::string(buf2.get(), 8))) w.fail("a receive that lost the race wrote to its buffer afterwards");
}
static void races(Gen& g) {
    World w; std::string d; int n = 0; std::size_t k = 1 + g.size(3), susp = 0; std::vector<std::unique_ptr<Race>> rs;
    for (std::size_t i = 0; i < k; ++i) {
        auto r = std::make_unique<Race>(); r->shape = g.draw(std::size(kShape)); d += std::string(kShape[r->shape]) + ": ";
        for (std::size_t q = 0; q < kArity[r->shape]; ++q) { r->s.push_back(script(g, n, d, {})); susp += !r->s.back()->steps.empty(); }
        r->pause = g.chance(30, 100) ? (long)g.draw(3) * 300 : 0; r->tail = (long)g.draw(3) * 300; r->delay = (long)g.draw(5) * 200 - 200; r->sleep = (long)g.draw(5) * 200 - 200;
        if (r->shape == 10) r->sleep = std::max(0L, r->sleep); if (r->shape == 11 && r->delay < 0 && r->sleep < 0) r->delay = 300;
        d += " after " + std::to_string(r->pause) + "us, then " + std::to_string(r->tail) + "us" + (r->shape >= 9 ? ", send/sleep " + std::to_string(r->delay) + "/" + std::to_string(r->sleep) : "") + "; "; rs.push_back(std::move(r));
    }
    g.describe(d); g.nontrivial(susp > 1); if (susp == 0) g.label("nothing suspends");
    for (auto& r : rs) racer(w, *r).detach();
    w.loop.run(); PBT_CHECK(w.err.empty(), w.err); for (auto& r : rs) PBT_CHECK(r->done, "everything else has finished, but a race never ended (" << kShape[r->shape] << ")"); PBT_EQ(w.frames, 0L, "coroutine frames left");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "A04", .rule = "at least two of the raced coroutines suspend",
        .assumptions = {"the racers are temporaries of the awaiting expression", "one event loop"}, .quickCapS = 60},
        {{"races", races, 20000, 500000, 40, true}});
}

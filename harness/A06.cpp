// technique: property-based testing: generated concurrent programs of sleeps, yields, I/O and waits on one event loop, monitored against a model of the timer queue and the yield queue
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
using namespace HX; using pbt::Gen; using pbt::quote; using Clock = std::chrono::system_clock; using us = std::chrono::microseconds; using ms = std::chrono::milliseconds;
enum K { SleepFor, SleepUntil, Yield, Wait, Race, Spawn };
struct Op { K k; long n; int style; std::size_t who; };
struct Pending { Clock::time_point lo, hi; std::uint64_t seq; };
struct World {
    coroutine::EventLoop loop; Clock::time_point base; std::vector<std::vector<Op>> prog; std::vector<char> done, started; std::vector<std::size_t> step; std::vector<std::vector<int>> wakeFds; std::vector<int> allFds;
    std::map<std::uint64_t, Pending> timers; std::deque<std::uint64_t> yields; std::uint64_t seq = 0; std::size_t tres = 0, yres = 0; std::string err;
    void fail(std::string const& s) { if (err.empty()) err = s; }
    void timerFired(std::uint64_t id) {
        auto now = Clock::now(); auto it = timers.find(id); if (it == timers.end()) return fail("a sleep resumed twice"); auto p = it->second; timers.erase(it); ++tres;
        if (now < p.lo) fail("a sleep resumed " + std::to_string(std::chrono::duration_cast<us>(p.lo - now).count()) + " us before its deadline");
        for (auto& [i, q] : timers) if (q.hi < p.lo || (q.lo == q.hi && p.lo == p.hi && q.lo == p.lo && q.seq < p.seq)) return fail("a sleep resumed before another one that " + std::string(q.hi < p.lo ? "had an earlier deadline" : "started earlier with the same deadline"));
    }
    void yielded(std::uint64_t id) { ++yres; if (yields.empty() || yields.front() != id) fail("a yield resumed out of turn: the yields waiting in order are not resumed one after the other"); std::erase(yields, id); }
};
static coroutine::Task<> doSleep(World& w, bool until, long n) {
    auto id = ++w.seq; auto t0 = Clock::now(); if (until) { auto d = w.base + us(n); auto aw = w.loop.makeTimer().sleepUntil(d); w.timers[id] = {d, d, id}; co_await aw; }
    else { auto aw = w.loop.makeTimer().sleepFor(us(n)); auto t1 = Clock::now(); w.timers[id] = {t0 + us(n), t1 + us(n), id}; co_await aw; }
    w.timerFired(id);
}
static coroutine::Task<> doYield(World& w) { auto id = ++w.seq; w.yields.push_back(id); co_await w.loop.makeTimer().yield(); w.yielded(id); }
static coroutine::RootTask<> participant(World& w, std::size_t me) {
    w.started[me] = 1;
    for (auto const& op : w.prog[me]) {
        ++w.step[me];
        switch (op.k) {
        case SleepFor: co_await doSleep(w, false, op.n); break;
        case SleepUntil: co_await doSleep(w, true, op.n); break;
        case Yield: for (long i = 0; i < op.n; ++i) co_await doYield(w); break;
        case Wait: {
            auto limit = Clock::now() + std::chrono::seconds(8); char b;
            if (op.style == 0) while (!w.done[op.who] && w.err.empty()) { co_await doYield(w); if (Clock::now() > limit) { w.fail("a coroutine that yields until another one has finished keeps it from running"); } }
            else if (op.style == 1) while (!w.done[op.who] && w.err.empty()) { co_await doSleep(w, false, op.n); if (Clock::now() > limit) { w.fail("a coroutine that sleeps in short steps until another one has finished keeps it from running"); } }
            else if (!w.done[op.who]) { int s[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) _exit(98); w.allFds.insert(w.allFds.end(), {s[0], s[1]}); w.wakeFds[op.who].push_back(s[1]); int r = co_await w.loop.makeAioTask().prepRecv(s[0], std::span<char>{&b, 1}, 0); if (r != 1) w.fail("recv returned " + std::to_string(r)); if (!w.done[op.who]) w.fail("recv resumed before anything was sent"); }
            break; }
        case Race: {
            auto id = ++w.seq; auto t0 = Clock::now(); auto lim = t0 + std::chrono::seconds(30); w.timers[id] = {lim, lim, id};
            auto other = [](World& x, std::uint64_t i, Clock::time_point t) -> coroutine::Task<> { co_await x.loop.makeTimer().sleepUntil(t); x.timerFired(i); };
            auto r = co_await coroutine::whenAny(doSleep(w, false, op.n), other(w, id, lim)); if (r.index() != 0) w.fail("the later sleep won the race"); w.timers.erase(id); break; }
        case Spawn: if (op.who < w.prog.size() && !w.started[op.who]) participant(w, op.who).detach(); break;
        }
    }
    w.done[me] = 1; for (int f : w.wakeFds[me]) { char c = 'x'; if (::send(f, &c, 1, MSG_NOSIGNAL) != 1) w.fail("send"); }
}
static void program(Gen& g) {
    std::size_t n = 1 + g.size(7); World w; w.prog.resize(n); w.done.assign(n, 0); w.started.assign(n, 0); w.step.assign(n, 0); w.wakeFds.resize(n); std::string desc; std::size_t kinds[6] = {};
    for (std::size_t i = 0; i < n; ++i) {
        desc += "P" + std::to_string(i) + ":"; std::size_t len = 1 + g.size(5);
        for (std::size_t k = 0; k < len; ++k) {
            Op o{(K)g.draw(6), 0, 0, 0}; if (o.k == Wait && i == 0) o.k = Yield; if (o.k == Spawn && i + 1 >= n) o.k = SleepUntil; ++kinds[o.k];
            switch (o.k) {
            case SleepFor: o.n = g.chance(30, 100) ? 0 : (long)g.draw(4) * 700 + (long)g.draw(3) - (g.chance(10, 100) ? 1500 : 0); desc += " sleepFor(" + std::to_string(o.n) + "us)"; break;
            case SleepUntil: o.n = (long)g.draw(8) * 900 - 900; desc += " sleepUntil(" + std::to_string(o.n) + "us)"; break;
            case Yield: o.n = 1 + (long)g.size(6); desc += " yield*" + std::to_string(o.n); break;
            case Wait: o.who = g.draw(i); o.style = (int)g.draw(3); o.n = (long)g.draw(3) * 200; desc += std::string(" waitFor P") + std::to_string(o.who) + (o.style == 0 ? " yielding" : o.style == 1 ? " sleeping " + std::to_string(o.n) + "us steps" : " in recv"); break;
            case Race: o.n = (long)g.draw(3) * 600; desc += " race(" + std::to_string(o.n) + "us|30s)"; break;
            case Spawn: o.who = i + 1 + g.draw(n - i - 1); desc += " spawn P" + std::to_string(o.who); break;
            }
            w.prog[i].push_back(o);
        }
        desc += "; ";
    }
    std::size_t used = 0; for (auto k : kinds) used += k > 0; g.describe(desc); g.nontrivial(n > 1 && used > 2); if (kinds[Wait]) g.label("waits for another coroutine");
    auto t0 = Clock::now(); w.base = t0; std::vector<std::size_t> order(n); for (std::size_t i = 0; i < n; ++i) order[i] = i; for (std::size_t i = n; i > 1; --i) std::swap(order[i - 1], order[g.draw(i)]);
    for (auto i : order) if (!w.started[i]) participant(w, i).detach(); w.loop.run(); auto el = Clock::now() - t0;
    for (int f : w.allFds) ::close(f);
    PBT_CHECK(w.err.empty(), w.err); for (std::size_t i = 0; i < n; ++i) PBT_CHECK(w.done[i], "the loop ended while P" << i << " was still waiting in step " << w.step[i]);
    PBT_CHECK(w.timers.empty() && w.yields.empty(), "sleeps or yields never resumed"); PBT_CHECK(el < std::chrono::seconds(25), "the loop waited for a sleep that had lost its race");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "A06", .rule = "several coroutines and at least three kinds of operations",
        .assumptions = {"the system clock is not stepped while a case runs"}, .quickCapS = 60},
        {{"programs", program, 20000, 500000, 40, true}});
}

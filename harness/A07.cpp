// technique: property-based testing: generated programs of coroutines submitting (nested, suspending, throwing) sections to serial executors, monitored against a FIFO model of each executor
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
using namespace HX; using pbt::Gen; using us = std::chrono::microseconds;
struct Section; struct Step { enum K { Yield, Sleep, Sub } k; long n; std::shared_ptr<Section> sub; };
struct Section { int id; std::size_t ex; std::vector<Step> body; bool throws; };
struct Item { enum K { Yield, Sleep, Submit } k; long n; std::shared_ptr<Section> s; };
struct Boom { int id; };
struct World {
    coroutine::EventLoop loop; std::vector<std::unique_ptr<coroutine::SerialExecutor>> ex; std::vector<std::deque<int>> fifo; std::vector<int> active; std::map<int, int> runs; std::set<int> finished; std::vector<std::vector<Item>> prog; std::vector<char> done; std::string err; bool lastDestroys = false; std::size_t left = 0, waited = 0, raii = 0;
    void fail(std::string const& s) { if (err.empty()) err = s; }
};
struct Live { World& w; explicit Live(World& x) : w(x) { ++w.raii; } ~Live() { --w.raii; } };
static coroutine::Task<> submit(World& w, std::shared_ptr<Section> s);
static coroutine::Task<> body(World& w, std::shared_ptr<Section> s) {
    Live l{w}; auto name = "section " + std::to_string(s->id); if (w.runs[s->id]++) w.fail(name + " ran twice");
    if (w.active[s->ex]) w.fail(name + " started while section " + std::to_string(w.active[s->ex]) + " of the same executor was still running"); if (w.fifo[s->ex].empty() || w.fifo[s->ex].front() != s->id) w.fail(name + " started before an earlier submission");
    w.active[s->ex] = s->id;
    for (auto& st : s->body) switch (st.k) {
        case Step::Yield: for (long i = 0; i < st.n; ++i) co_await w.loop.makeTimer().yield(); break;
        case Step::Sleep: co_await w.loop.makeTimer().sleepFor(us(st.n)); break;
        case Step::Sub: co_await submit(w, st.sub); break;
    }
    if (w.active[s->ex] != s->id) w.fail(name + " lost its turn while it was running");
    w.active[s->ex] = 0; std::erase(w.fifo[s->ex], s->id); w.finished.insert(s->id); if (s->throws) throw Boom{s->id};
}
static coroutine::Task<> submit(World& w, std::shared_ptr<Section> s) {
    auto name = "section " + std::to_string(s->id); if (!w.fifo[s->ex].empty()) ++w.waited; w.fifo[s->ex].push_back(s->id); auto t = body(w, s); int got = 0;
    try { co_await w.ex[s->ex]->serial(t); } catch (Boom const& b) { got = b.id; }
    if (!w.finished.count(s->id)) w.fail("the submitter of " + name + " continued before the section had finished");
    if (s->throws && !got) w.fail("the exception of " + name + " did not reach its submitter"); if (!s->throws && got) w.fail("the submitter of " + name + " received an exception of section " + std::to_string(got)); if (got && got != s->id) w.fail("the submitter of " + name + " received the exception of section " + std::to_string(got));
}
static coroutine::RootTask<> submitter(World& w, std::size_t me) {
    for (auto& it : w.prog[me]) switch (it.k) {
        case Item::Yield: for (long i = 0; i < it.n; ++i) co_await w.loop.makeTimer().yield(); break;
        case Item::Sleep: co_await w.loop.makeTimer().sleepFor(us(it.n)); break;
        case Item::Submit: co_await submit(w, it.s); break;
    }
    w.done[me] = 1; if (!--w.left && w.lastDestroys) w.ex.clear();
}
static std::shared_ptr<Section> section(Gen& g, std::size_t ex, std::size_t nex, int& ids, std::string& d, bool& nested, bool& throws) {
    auto s = std::make_shared<Section>(); s->id = ++ids; s->ex = ex; d += " E" + std::to_string(ex) + ".s" + std::to_string(s->id) + "{"; std::size_t n = g.size(3);
    for (std::size_t i = 0; i < n; ++i) switch (g.draw(ex + 1 < nex ? 3 : 2)) {
        case 0: s->body.push_back({Step::Yield, 1 + (long)g.draw(4), {}}); d += " yield*" + std::to_string(s->body.back().n); break;
        case 1: s->body.push_back({Step::Sleep, (long)g.draw(4) * 300, {}}); d += " sleep(" + std::to_string(s->body.back().n) + "us)"; break;
        default: nested = true; s->body.push_back({Step::Sub, 0, section(g, ex + 1 + g.draw(nex - ex - 1), nex, ids, d, nested, throws)}); break;
    }
    s->throws = g.chance(25, 100); if (s->throws) { d += " throw"; throws = true; } d += " }"; return s;
}
static void program(Gen& g) {
    World w; std::size_t nex = 1 + g.draw(3), n = 1 + g.size(6); for (std::size_t i = 0; i < nex; ++i) w.ex.push_back(std::make_unique<coroutine::SerialExecutor>()); w.fifo.resize(nex); w.active.assign(nex, 0); w.prog.resize(n); w.done.assign(n, 0); w.left = n; w.lastDestroys = g.chance(30, 100); int ids = 0; bool nested = false, throws = false; std::string d;
    for (std::size_t i = 0; i < n; ++i) {
        d += "P" + std::to_string(i) + ":"; std::size_t len = 1 + g.size(4);
        for (std::size_t k = 0; k < len; ++k) switch (g.draw(4)) {
            case 0: w.prog[i].push_back({Item::Yield, 1 + (long)g.draw(4), {}}); d += " yield*" + std::to_string(w.prog[i].back().n); break;
            case 1: w.prog[i].push_back({Item::Sleep, (long)g.draw(4) * 300, {}}); d += " sleep(" + std::to_string(w.prog[i].back().n) + "us)"; break;
            default: w.prog[i].push_back({Item::Submit, 0, section(g, g.draw(nex), nex, ids, d, nested, throws)}); break;
        }
        d += "; ";
    }
    if (w.lastDestroys) d += "the last one destroys the executors"; g.describe(d);
    for (std::size_t i = 0; i < n; ++i) submitter(w, i).detach(); w.loop.run();
    g.nontrivial(w.waited > 0); if (throws) g.label("throwing sections"); if (nested) g.label("nested executors"); if (w.waited) g.label("waiting submitters");
    PBT_CHECK(w.err.empty(), w.err); for (std::size_t i = 0; i < n; ++i) PBT_CHECK(w.done[i], "everything else has finished, but P" << i << " never continued");
    PBT_EQ(w.finished.size(), std::size_t(ids), "sections that finished"); w.ex.clear(); PBT_EQ(w.raii, std::size_t(0), "section frames left alive");
}
// many submissions that never suspend, queued behind one that does
static void backlog(Gen& g) {
    World w; w.ex.push_back(std::make_unique<coroutine::SerialExecutor>()); w.fifo.resize(1); w.active.assign(1, 0); std::size_t n = 1 + g.size(200), t = 0; w.prog.resize(n); w.done.assign(n, 0); w.left = n;
    for (std::size_t i = 0; i < n; ++i) { auto s = std::make_shared<Section>(); s->id = int(i) + 1; s->ex = 0; if (!i) s->body.push_back({Step::Sleep, 300, {}}); s->throws = g.chance(10, 100); t += s->throws; w.prog[i].push_back({Item::Submit, 0, s}); }
    g.describe(std::to_string(n) + " sections queued behind one that sleeps, " + std::to_string(t) + " of them throw"); g.nontrivial(n > 20);
    for (std::size_t i = 0; i < n; ++i) submitter(w, i).detach(); w.loop.run(); PBT_CHECK(w.err.empty(), w.err); for (std::size_t i = 0; i < n; ++i) PBT_CHECK(w.done[i], "P" << i << " never continued"); w.ex.clear(); PBT_EQ(w.raii, std::size_t(0), "section frames left alive");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "A07", .rule = "at least one submission had to wait for another section (more than 20 queued, for the backlogs)",
        .assumptions = {"the task of a section lives until its submission returns, as the class asks for", "one event loop; clear() is not called while submissions wait"}, .quickCapS = 60},
        {{"programs", program, 20000, 500000, 40, true}, {"backlogs", backlog, 1000, 30000, 40}});
}

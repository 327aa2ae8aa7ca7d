// technique: property-based testing (stateful): generated submission histories from several threads and from tasks themselves against fixed and elastic pools, with generated outcomes, durations, idle phases and destruction points, each task's runs, outcome, arguments and lifetime compared with the history, and worker counts observed through the tasks and the process's thread list
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/container/ThreadPool.hpp>
#include <filesystem>
#include <thread>
#include <barrier>
using namespace HX; using namespace HX::container; using pbt::Gen; using namespace std::chrono_literals;
struct Boom { int id; };
enum class R { Int, Str, Uptr, Void, Ref };
struct Plan { int id; R r; bool throws; int us; int pauseUs; int children; bool drop; };
struct Token { std::atomic<long>& live; explicit Token(std::atomic<long>& l) : live(l) { ++live; } Token(Token&& o) noexcept : live(o.live) { ++live; } Token(Token const&) = delete; ~Token() { --live; } };
struct World {
    std::mutex m; std::string err; std::unique_ptr<std::atomic<int>[]> started, finished; std::atomic<long> live{0}, running{0}, maxRunning{0}; std::atomic<bool> destroyed{false}; std::atomic<std::size_t> submitted{0};
    explicit World(std::size_t n) : started(new std::atomic<int>[n]{}), finished(new std::atomic<int>[n]{}) {}
    void fail(std::string s) { std::lock_guard _{m}; if (err.empty()) err = std::move(s); }
};
static void nap(int us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); else if (us < 0) std::this_thread::yield(); }
struct Running { World& w; int id; Running(World& w, int id) : w(w), id(id) { if (w.started[id]++) w.fail("task " + std::to_string(id) + " ran twice"); if (w.destroyed) w.fail("task " + std::to_string(id) + " ran after the pool was destroyed"); long n = ++w.running, m = w.maxRunning; while (n > m && !w.maxRunning.compare_exchange_weak(m, n)) {} } ~Running() { --w.running; ++w.finished[id]; } };
static std::string text(int id) { return "the outcome of task number " + std::to_string(id); }
// submits one task (and lets it submit its children) and judges its future
struct Pending { Plan p; std::function<void(World&)> judge; };
template <class F> static void settle(World& w, Plan const& p, F get) {
    bool threw = false; int id = -1; try { get(); } catch (Boom const& b) { threw = true; id = b.id; } catch (...) { w.fail("task " + std::to_string(p.id) + " delivered a foreign exception"); return; }
    if (!w.finished[p.id]) w.fail("the future of task " + std::to_string(p.id) + " was ready before the task had finished"); if (threw != p.throws || (threw && id != p.id)) w.fail("task " + std::to_string(p.id) + (p.throws ? " threw" : " returned") + " but its future did not say so");
}
static void submit(ThreadPool& pool, World& w, Plan p, std::vector<Pending>& out, std::mutex& om) {
    ++w.submitted; Token tok{w.live}; auto keep = [&](auto f) { if (!p.drop) { auto h = std::make_shared<decltype(f)>(std::move(f)); std::lock_guard _{om}; out.push_back({p, [h, p](World& w) { settle(w, p, [&] {
        using V = std::decay_t<decltype(h->get())>; auto v = h->get(); if constexpr (std::is_same_v<V, int>) { if (v != p.id * 3) w.fail("task " + std::to_string(p.id) + " delivered " + std::to_string(v)); } else if constexpr (std::is_same_v<V, std::string>) { if (v != text(p.id)) w.fail("task " + std::to_string(p.id) + " delivered " + v); } else if constexpr (std::is_same_v<V, std::unique_ptr<int>>) { if (!v || *v != p.id) w.fail("task " + std::to_string(p.id) + " delivered a wrong pointer"); } }); }}); } };
    auto body = [&pool, &w, &out, &om, p, tok = std::move(tok)] { Running r{w, p.id}; for (int i = 0; i < p.children; ++i) submit(pool, w, {p.id + 1 + i, (R)((p.id + i) % 4), false, 0, 0, 0, false}, out, om); nap(p.us); if (p.throws) throw Boom{p.id}; };
    switch (p.r) {
    case R::Int: keep(pool.addTask([b = std::move(body)](int k, std::unique_ptr<int> q) mutable { b(); return k + *q; }, +p.id, std::make_unique<int>(p.id * 2))); break;
    case R::Str: keep(pool.addTask([b = std::move(body), p]() mutable { b(); return text(p.id); })); break;
    case R::Uptr: keep(pool.addTask([b = std::move(body), p]() mutable { b(); return std::make_unique<int>(p.id); })); break;
    case R::Void: keep(pool.addTask([b = std::move(body)]() mutable { b(); })); break;
    case R::Ref: { auto box = std::make_shared<int>(p.id); keep(pool.addTask([b = std::move(body), box](std::string const& s) mutable { b(); return s; }, text(p.id))); break; }
    }
}
static std::size_t threads() { std::size_t n = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/task")) { (void)e; ++n; } return n; }
static void history(Gen& g, bool elastic) {
    uint32_t lo = 1 + (uint32_t)g.draw(elastic ? 8 : 5), hi = lo + (uint32_t)g.draw(5); std::size_t nThreads = 1 + g.draw(3), total = 0; bool wait = g.chance(70, 100), lateRun = !elastic && g.chance(20, 100); std::string d = elastic ? "elastic " + std::to_string(lo) + ".." + std::to_string(hi) : "fixed " + std::to_string(lo); d += wait ? "" : ", destroyed at once"; d += lateRun ? ", started late" : "";
    int everyMs = 1 + (int)g.draw(3); struct Phase { std::vector<std::vector<Plan>> per; int idleMs; bool meet; }; std::vector<Phase> phases; std::size_t np = 1 + g.draw(elastic ? 3 : 2); int id = 1;
    for (std::size_t k = 0; k < np; ++k) { Phase ph; ph.per.resize(nThreads); d += "; phase"; for (std::size_t t = 0; t < nThreads; ++t) { std::size_t n = g.size(elastic ? 14 : 8); for (std::size_t i = 0; i < n; ++i) { Plan p{id, (R)g.draw(5), g.chance(25, 100), g.chance(50, 100) ? (int)g.draw(3) - 1 : (int)g.draw(500), g.chance(60, 100) ? 0 : (int)g.draw(120) - 1, g.chance(15, 100) ? 1 + (int)g.draw(3) : 0, g.chance(15, 100)}; id += 1 + p.children; d += " " + std::to_string(p.id) + (p.throws ? "!" : "") + (p.children ? "+" + std::to_string(p.children) : "") + (p.us > 0 ? "(" + std::to_string(p.us) + "us)" : ""); ph.per[t].push_back(p); ++total; } d += " |"; } ph.idleMs = g.chance(elastic ? 50 : 15, 100) ? (int)g.draw(10) : 0; ph.meet = elastic ? g.boolean() : g.chance(20, 100); d += " idle " + std::to_string(ph.idleMs) + "ms" + (ph.meet ? ", meet" : ""); phases.push_back(std::move(ph)); }
    g.describe(d); g.nontrivial(total > 1 && (nThreads > 1 || lo > 1)); g.label(elastic ? (wait ? "elastic" : "elastic, destroyed at once") : (wait ? "fixed" : "fixed, destroyed at once"));
    World w((std::size_t)id + 1); std::vector<Pending> out; std::mutex om; std::size_t base = threads(), most = 0;
    {
        ThreadPool pool; if (elastic) { pool.setMinThreadNum(lo).setMaxThreadNum(hi); pool.run<ThreadPool::Model::AsyncCheck>(std::chrono::milliseconds(everyMs)); } else { pool.setFixedThreadNum(lo); if (!lateRun) pool.run<ThreadPool::Model::FixedSizeAndNoCheck>(); }
        for (auto& ph : phases) {
            std::vector<std::thread> ts; for (auto& list : ph.per) ts.emplace_back([&] { for (auto& p : list) { nap(p.pauseUs); submit(pool, w, p, out, om); } });
            if (lateRun) { pool.run<ThreadPool::Model::FixedSizeAndNoCheck>(); lateRun = false; }
            for (auto& t : ts) t.join();
            if (elastic) for (int i = 0; i < ph.idleMs + 1; ++i) { nap(1000); most = std::max(most, threads()); } else nap(ph.idleMs * 1000);
            if (wait) for (std::size_t i = 0;; ++i) { Pending q; { std::lock_guard _{om}; if (i >= out.size()) { out.clear(); break; } q = out[i]; } q.judge(w); }
            // the minimum of workers can all be busy at the same time
            if (ph.meet && wait) { std::atomic<uint32_t> here{0}; std::atomic<bool> all{false}; std::vector<FutureResult<bool>> fs; auto limit = std::chrono::steady_clock::now() + 8s; for (uint32_t i = 0; i < lo; ++i) fs.push_back(pool.addTask([&] { if (++here == lo) all = true; while (!all && std::chrono::steady_clock::now() < limit) std::this_thread::sleep_for(100us); return all.load(); })); for (auto& f : fs) if (!f.get()) w.fail("a pool of at least " + std::to_string(lo) + " workers did not run that many tasks at the same time"); if (elastic) most = std::max(most, threads()); }
        }
        if (wait) { for (std::size_t i = 0;; ++i) { Pending q; { std::lock_guard _{om}; if (i >= out.size()) break; q = out[i]; } q.judge(w); }
            auto limit = std::chrono::steady_clock::now() + 8s; for (;;) { bool all = true; for (int i = 0; i <= id; ++i) all &= w.started[i] == w.finished[i]; std::size_t ran = 0; for (int i = 0; i <= id; ++i) ran += w.finished[i] > 0; if (all && ran == w.submitted) break; if (std::chrono::steady_clock::now() > limit) { w.fail(std::to_string(w.submitted - ran) + " submitted tasks never ran"); break; } nap(100); } }
    }
    w.destroyed = true; for (int i = 0; i <= id; ++i) if (w.started[i] != w.finished[i]) w.fail("task " + std::to_string(i) + " was still running after the pool was destroyed"); out.clear();
    PBT_CHECK(w.err.empty(), w.err); PBT_EQ(w.live.load(), 0, "callables alive after the pool and all futures are gone");
    PBT_CHECK((uint32_t)w.maxRunning.load() <= (elastic ? hi : lo), w.maxRunning << " tasks ran at the same time in a pool of " << (elastic ? hi : lo)); if (elastic) PBT_CHECK(most <= base + hi + 1, "a pool of at most " << hi << " workers had " << most - base - 1);
}
static void fixedPool(Gen& g) { history(g, false); }
static void elasticPool(Gen& g) { history(g, true); }
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "A01",
        .rule = "non-trivial: several tasks and several submitters or workers; tasks with five result kinds, values, exceptions, arguments by value, move and reference, children submitted by the task itself and dropped futures, in phases with pauses, against fixed pools (also started after the first submissions) and elastic pools with the default strategy, destroyed after all work or at once",
        .assumptions = {"a task that has not started when the pool is destroyed need not run", "elastic pools use the default strategy with a check every 1 to 3 ms"}},
        {{"fixed", fixedPool, 20000, 600000, 40, true}, {"elastic", elasticPool, 5000, 150000, 40, true}});
}

// technique: property-based testing: generated programs of nested coroutines (values, exceptions, generators, unstarted and abandoned tasks) run on the event loop and compared, event by event, with a sequential interpreter
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
using namespace HX; using pbt::Gen; using coroutine::Task;
struct Boom { int id; };
struct Node; using NP = std::shared_ptr<Node>;
enum K { Local, Block, Call, Suspend, Generate, Unstarted, TryAsync, Note, kKinds };
enum How { Temp, Named, Moved, Assigned };
struct Stmt { K k; int id = 0; std::vector<Stmt> body; NP sub; bool caught = false; How how = Temp; std::size_t take = 0; bool timer = false; };
struct Node { int id = 0, type = 0; std::vector<Stmt> body; bool throws = false; bool gen = false; std::vector<std::vector<Stmt>> parts; };   // a generator yields after every part
using Log = std::vector<std::string>;
static std::string S(int i) { return std::to_string(i); }
static std::string val(int type, int id, int k = 0) { switch (type) { case 0: return "void"; case 1: return S(id * 100 + k); case 2: return "a string that does not fit into itself " + S(id) + "." + S(k); default: return "*" + S(id * 100 + k); } }
// ---- the sequential interpreter
struct Ref {
    Log log; int next = 0;
    void block(std::vector<Stmt> const& b, long& acc) {
        std::vector<int> locals; struct Unwind { Log& l; std::vector<int>& v; ~Unwind() { for (auto i = v.size(); i-- > 0;) l.push_back("-" + S(v[i])); } } u{log, locals};
        for (auto& s : b) switch (s.k) {
            case Local: locals.push_back(s.id); log.push_back("+" + S(s.id)); break;
            case Block: log.push_back("{" + S(s.id)); if (s.caught) { try { block(s.body, acc); } catch (Boom& x) { log.push_back("caught " + S(x.id)); } } else block(s.body, acc); log.push_back("}" + S(s.id)); break;
            case Call: if (s.caught) { try { log.push_back("=" + call(*s.sub, acc)); } catch (Boom& x) { log.push_back("caught " + S(x.id)); } } else log.push_back("=" + call(*s.sub, acc)); break;
            case TryAsync: try { log.push_back("ok " + call(*s.sub, acc)); } catch (Boom& x) { log.push_back("failed " + S(x.id)); } break;
            case Suspend: break;
            case Unstarted: log.push_back("unstarted"); break;
            case Note: acc += s.id; log.push_back("acc " + std::to_string(acc)); break;
            case Generate: gen(s, acc); break;
            default: break;
        }
    }
    std::string call(Node const& n, long& acc) { log.push_back("enter " + S(n.id)); acc += n.id; struct L { Log& l; int id; ~L() { l.push_back("leave " + S(id)); } } l{log, n.id}; block(n.body, acc); if (n.throws) throw Boom{n.id}; return val(n.type, n.id); }
    void gen(Stmt const& s, long& acc) {   // takes s.take values; the last one is the returned one
        auto& n = *s.sub; bool started = false, ended = false; struct L { Log& l; int id; bool& st; bool& en; ~L() { if (st && !en) l.push_back("leave " + S(id)); } } l{log, n.id, started, ended};
        auto body = [&] { for (std::size_t i = 0; i < s.take; ++i) {
            if (!started) { started = true; log.push_back("enter " + S(n.id)); }
            struct E { bool ok = false; Log& l; int id; bool& en; ~E() { if (!ok && !en) { en = true; l.push_back("leave " + S(id)); } } } e{false, log, n.id, ended};
            if (i < n.parts.size()) { block(n.parts[i], acc); e.ok = true; log.push_back("got " + val(n.type, n.id, (int)i)); }
            else { block(n.body, acc); if (n.throws) throw Boom{n.id}; ended = true; e.ok = true; log.push_back("leave " + S(n.id)); log.push_back("got " + val(n.type, n.id)); } } };
        if (s.caught) { try { body(); } catch (Boom& x) { log.push_back("caught " + S(x.id)); } } else body();
    }
};
// ---- the same program as coroutines
struct World { coroutine::EventLoop loop; };
static long gParams = 0;
struct Param { Param() { ++gParams; } Param(Param const&) { ++gParams; } Param(Param&&) noexcept { ++gParams; } ~Param() { --gParams; } };
struct Run { World& w; Log log; };
struct Loc { Log& l; int id; Loc(Log& x, int i) : l(x), id(i) { l.push_back("+" + S(id)); } Loc(Loc const&) = delete; ~Loc() { l.push_back("-" + S(id)); } };
struct Scope { Log& l; int id; Scope(Log& x, int i) : l(x), id(i) { l.push_back("enter " + S(id)); } Scope(Scope const&) = delete; ~Scope() { l.push_back("leave " + S(id)); } };
using UP = std::unique_ptr<int>;
template <class T> static T make(int id, int k = 0) { if constexpr (std::is_same_v<T, int>) return id * 100 + k; else if constexpr (std::is_same_v<T, UP>) return std::make_unique<int>(id * 100 + k); else return val(2, id, k); }
static std::string str(int v) { return S(v); } static std::string str(std::string const& v) { return v; } static std::string str(UP const& v) { return v ? "*" + S(*v) : "null"; }
template <class T> static Task<T> run(Run& r, Node const& n, long& acc, Param p);
template <class T> static Task<T> generate(Run& r, Node const& n, long& acc, Param p);
template <class T> static Task<std::string> one(Run& r, Stmt const& s, long& acc) {
    auto say = [](auto&& t) -> Task<std::string> { if constexpr (std::is_void_v<T>) { co_await t; co_return "void"; } else { auto v = co_await t; co_return str(v); } };
    switch (s.how) {
    case Temp: if constexpr (std::is_void_v<T>) { co_await run<T>(r, *s.sub, acc, {}); co_return "void"; } else co_return str(co_await run<T>(r, *s.sub, acc, {}));
    case Named: { auto t = run<T>(r, *s.sub, acc, {}); co_return co_await say(t); }
    case Moved: { auto t = run<T>(r, *s.sub, acc, {}); auto u = std::move(t); co_return co_await say(u); }
    default: { auto t = run<T>(r, *s.sub, acc, {}); { auto u = run<T>(r, *s.sub, acc, {}); u = std::move(t); t = std::move(u); } co_return co_await say(t); }
    }
}
static Task<std::string> any(Run& r, Stmt const& s, long& acc) { switch (s.sub->type) { case 0: return one<void>(r, s, acc); case 1: return one<int>(r, s, acc); case 2: return one<std::string>(r, s, acc); default: return one<UP>(r, s, acc); } }
template <class T> static Task<> take(Run& r, Stmt const& s, long& acc) { auto g = generate<T>(r, *s.sub, acc, {}); for (std::size_t i = 0; i < s.take; ++i) { auto v = co_await g; r.log.push_back("got " + str(v)); } }
static Task<> takeAny(Run& r, Stmt const& s, long& acc) { switch (s.sub->type) { case 1: return take<int>(r, s, acc); case 2: return take<std::string>(r, s, acc); default: return take<UP>(r, s, acc); } }
static Task<> block(Run& r, std::vector<Stmt> const& b, long& acc) {
    std::deque<Loc> locals; struct Unwind { std::deque<Loc>& d; ~Unwind() { while (!d.empty()) d.pop_back(); } } u{locals};
    for (auto& s : b) switch (s.k) {
        case Local: locals.emplace_back(r.log, s.id); break;
        case Block: r.log.push_back("{" + S(s.id)); if (s.caught) { try { co_await block(r, s.body, acc); } catch (Boom& x) { r.log.push_back("caught " + S(x.id)); } } else co_await block(r, s.body, acc); r.log.push_back("}" + S(s.id)); break;
        case Call: if (s.caught) { try { auto v = co_await any(r, s, acc); r.log.push_back("=" + v); } catch (Boom& x) { r.log.push_back("caught " + S(x.id)); } } else { auto v = co_await any(r, s, acc); r.log.push_back("=" + v); } break;
        case TryAsync: { auto t = co_await r.w.loop.tryAsync(any(r, s, acc)); if (t.isVal()) r.log.push_back("ok " + t.move()); else { try { t.rethrow(); } catch (Boom& x) { r.log.push_back("failed " + S(x.id)); } } break; }
        case Suspend: if (s.timer) co_await r.w.loop.makeTimer().sleepFor(std::chrono::microseconds(20 * (s.id % 4))); else co_await r.w.loop.makeTimer().yield(); break;
        case Unstarted: { auto t = any(r, s, acc); if (s.how == Moved) { auto u = std::move(t); } r.log.push_back("unstarted"); break; }
        case Note: acc += s.id; r.log.push_back("acc " + std::to_string(acc)); break;
        case Generate: if (s.caught) { try { co_await takeAny(r, s, acc); } catch (Boom& x) { r.log.push_back("caught " + S(x.id)); } } else co_await takeAny(r, s, acc); break;
        default: break;
    }
}
template <class T> static Task<T> run(Run& r, Node const& n, long& acc, Param) {
    Scope sc{r.log, n.id}; acc += n.id; co_await block(r, n.body, acc); if (n.throws) throw Boom{n.id};
    if constexpr (std::is_void_v<T>) co_return; else if (n.id % 2) { T v = make<T>(n.id); if constexpr (std::is_same_v<T, UP>) co_return std::move(v); else co_return v; } else co_return make<T>(n.id);
}
template <class T> static Task<T> generate(Run& r, Node const& n, long& acc, Param) {
    Scope sc{r.log, n.id}; for (std::size_t i = 0; i < n.parts.size(); ++i) { co_await block(r, n.parts[i], acc); if constexpr (!std::is_same_v<T, UP>) { if (i % 2) { T const v = make<T>(n.id, (int)i); co_yield v; continue; } } co_yield make<T>(n.id, (int)i); }
    co_await block(r, n.body, acc); if (n.throws) throw Boom{n.id}; co_return make<T>(n.id);
}
// ---- generation
struct B { Gen& g; int ids = 0; int budget = 60; std::string d; bool exc = false, susp = false, gens = false; };
static NP node(B& b, int depth, bool gen);
static std::vector<Stmt> stmts(B& b, int depth, std::size_t max) {
    std::vector<Stmt> v; std::size_t n = b.g.size(max);
    for (std::size_t i = 0; i < n && b.budget-- > 0; ++i) {
        Stmt s; s.k = (K)b.g.draw(kKinds); s.id = ++b.ids; s.caught = b.g.boolean(); s.how = (How)b.g.draw(4);
        if (depth <= 0 && (s.k == Block || s.k == Call || s.k == Generate || s.k == Unstarted || s.k == TryAsync)) s.k = b.g.boolean() ? Note : Suspend;
        switch (s.k) {
        case Local: b.d += " local"; break; case Note: b.d += " note"; break; case Suspend: s.timer = b.g.chance(20, 100); b.d += s.timer ? " sleep" : " yield"; b.susp = true; break;
        case Block: b.d += s.caught ? " try{" : " {"; s.body = stmts(b, depth - 1, 4); b.d += " }"; break;
        case Call: b.d += s.caught ? " trycall " : " call "; s.sub = node(b, depth - 1, false); break;
        case TryAsync: b.d += " tryAsync "; s.sub = node(b, depth - 1, false); break;
        case Unstarted: b.d += " unstarted "; s.sub = node(b, depth - 1, false); break;
        case Generate: b.gens = true; b.d += s.caught ? " trygen " : " gen "; s.sub = node(b, depth - 1, true); s.take = b.g.draw(s.sub->parts.size() + 2); b.d += " take " + S((int)s.take); break;
        default: break; }
        v.push_back(std::move(s));
    }
    return v;
}
static NP node(B& b, int depth, bool gen) {
    auto n = std::make_shared<Node>(); n->id = ++b.ids; n->gen = gen; n->type = gen ? 1 + (int)b.g.draw(3) : (int)b.g.draw(4); b.d += "#" + S(n->id) + (n->type == 0 ? "void" : n->type == 1 ? "int" : n->type == 2 ? "str" : "ptr") + "(";
    if (gen) { std::size_t k = b.g.size(4); for (std::size_t i = 0; i < k; ++i) { n->parts.push_back(stmts(b, depth - 1, 2)); b.d += " yield;"; } }
    n->body = stmts(b, depth, 4); n->throws = b.g.chance(20, 100); if (n->throws) { b.exc = true; b.d += " throw"; } b.d += " )"; return n;
}
static coroutine::RootTask<> root(Run& r, Stmt const& s, long& acc, std::string& res) { try { auto v = co_await any(r, s, acc); res = "value " + v; } catch (Boom& x) { res = "threw " + S(x.id); } }
static coroutine::RootTask<> rootAway(Run& r, Stmt const& s, long& acc, bool& over) { struct F { bool& o; ~F() { o = true; } } f{over}; co_await any(r, s, acc); }     // its exception goes nowhere
static bool suspends(Node const& n); static bool suspends(std::vector<Stmt> const& v) { for (auto& s : v) if (s.k == Suspend || suspends(s.body) || (s.sub && suspends(*s.sub))) return true; return false; } static bool suspends(Node const& n) { if (suspends(n.body)) return true; for (auto& p : n.parts) if (suspends(p)) return true; return false; }
static void programs(Gen& g) {
    World w; std::size_t k = 1 + g.size(3); int mode = (int)g.draw(5); if (mode < 3) k = 1; B b{g, 0, 60, "", false, false, false}; std::vector<Stmt> ps; std::vector<std::unique_ptr<Run>> rs; std::vector<std::string> res(k), want(k); std::vector<long> acc(k, 0), racc(k, 0); std::vector<Ref> refs(k); std::unique_ptr<bool[]> over(new bool[k]());
    for (std::size_t i = 0; i < k; ++i) { Stmt s; s.k = Call; s.how = (How)g.draw(4); s.sub = node(b, 4, false); ps.push_back(std::move(s)); b.d += "; "; b.budget = 60; }
    if (mode == 2 && suspends(*ps[0].sub)) mode = 1;
    g.describe(std::string((char const*[]){"sync: ", "trySync: ", "runSync: ", "root tasks: ", "root tasks without a handler: "}[mode]) + b.d); g.nontrivial(b.ids > 6 && (b.exc || b.gens || b.susp));
    for (std::size_t i = 0; i < k; ++i) { try { want[i] = "value " + refs[i].call(*ps[i].sub, racc[i]); } catch (Boom& x) { want[i] = "threw " + S(x.id); } rs.push_back(std::make_unique<Run>(Run{w, {}})); }
    switch (mode) {
    case 0: try { res[0] = "value " + w.loop.sync(any(*rs[0], ps[0], acc[0])); } catch (Boom& x) { res[0] = "threw " + S(x.id); } break;
    case 1: { auto t = w.loop.trySync(any(*rs[0], ps[0], acc[0])); if (t.isVal()) res[0] = "value " + t.move(); else try { t.rethrow(); } catch (Boom& x) { res[0] = "threw " + S(x.id); } break; }
    case 2: try { res[0] = "value " + any(*rs[0], ps[0], acc[0]).runSync(); } catch (Boom& x) { res[0] = "threw " + S(x.id); } break;
    case 3: for (std::size_t i = 0; i < k; ++i) root(*rs[i], ps[i], acc[i], res[i]).detach(); w.loop.run(); break;
    case 4: for (std::size_t i = 0; i < k; ++i) rootAway(*rs[i], ps[i], acc[i], over[i]).detach(); w.loop.run(); for (std::size_t i = 0; i < k; ++i) { PBT_CHECK(over[i], "root task " << i << " has not ended"); res[i] = want[i]; } break;
    }
    for (std::size_t i = 0; i < k; ++i) {
        PBT_EQ(res[i], want[i], "outcome of program " << i); auto& a = rs[i]->log; auto& e = refs[i].log;
        for (std::size_t j = 0; j < std::min(a.size(), e.size()); ++j) PBT_CHECK(a[j] == e[j], "event " << j << " of program " << i << " is '" << a[j] << "' but sequential code gives '" << e[j] << "' (after '" << (j ? e[j - 1] : "") << "')");
        PBT_EQ(a.size(), e.size(), "events of program " << i << (a.size() < e.size() ? ", missing " + e[a.size()] : a.size() > e.size() ? ", extra " + a[e.size()] : "")); PBT_EQ(acc[i], racc[i], "accumulator passed by reference");
    }
    PBT_EQ(gParams, 0L, "parameters alive after everything has ended");
}
// suspended chains destroyed in the middle: every local of every frame is destroyed once
static Task<> never(Run& r, int depth, int stop) { Loc l{r.log, depth}; if (depth < stop) co_await never(r, depth + 1, stop); else co_await r.w.loop.makeTimer().sleepFor(std::chrono::milliseconds(stop > 12 ? 80 : 10)); r.log.push_back("ran on"); }
static void abandoned(Gen& g) {
    World w; Run r{w, {}}; int depth = (int)g.size(g.chance(5, 100) ? 1500 : 12); std::size_t n = 1 + g.size(3); bool before = g.boolean(); g.describe(S((int)n) + " chains of depth " + S(depth + 1) + (before ? ", destroyed before the loop runs" : ", destroyed by another task")); g.nontrivial(depth > 0);
    std::vector<Task<>> ts; for (std::size_t i = 0; i < n; ++i) ts.push_back(never(r, 0, depth)); for (auto& t : ts) w.loop.start(t);
    PBT_EQ(r.log.size(), n * (std::size_t)(depth + 1), "frames started");
    if (before) { ts.clear(); w.loop.run(); } else { auto kill = [&]() -> Task<> { co_await w.loop.makeTimer().yield(); ts.clear(); co_await w.loop.makeTimer().sleepFor(std::chrono::milliseconds(depth > 12 ? 81 : 11)); }; w.loop.sync(kill()); }
    std::map<std::string, std::size_t> c; for (auto& e : r.log) ++c[e]; for (int d = 0; d <= depth; ++d) { PBT_EQ(c["+" + S(d)], n, "locals created at depth " << d); PBT_EQ(c["-" + S(d)], n, "locals destroyed at depth " << d); } PBT_EQ(c["ran on"], (std::size_t)0, "abandoned coroutines that ran on");
}
// long chains and long generators neither overflow the stack nor lose values
static Task<long> deep(World& w, int n, bool y, int bad) { if (n == bad) throw Boom{n}; if (n == 0) { if (y) co_await w.loop.makeTimer().yield(); co_return 0; } co_return 1 + co_await deep(w, n - 1, y, bad); }
static Task<long> count(World& w, long n, long every) { for (long i = 0; i < n; ++i) { if (every && i % every == 0) co_await w.loop.makeTimer().yield(); co_yield long(i); } co_return -1; }
static void longRuns(Gen& g) {
    World w; int n = (int)g.draw(g.chance(20, 100) ? 20000 : 500); bool y = g.boolean(); int bad = g.chance(30, 100) ? (int)g.draw((std::uint64_t)n + 1) : -1; long m = (long)g.draw(g.chance(20, 100) ? 30000 : 300), every = g.boolean() ? 1 + (long)g.draw(50) : 0;
    g.describe("depth " + S(n) + (y ? " suspending" : "") + (bad >= 0 ? " throwing at " + S(bad) : "") + ", " + S((int)m) + " values"); g.nontrivial(n > 50);
    bool threw = false; long v = 0; try { v = w.loop.sync(deep(w, n, y, bad)); } catch (Boom& b) { threw = true; PBT_EQ(b.id, bad, "exception"); } PBT_EQ(threw, bad >= 0, "exception thrown"); if (!threw) PBT_EQ(v, (long)n, "sum over the chain");
    auto loop = [&]() -> Task<long> { auto c = count(w, m, every); long sum = 0; for (long i = 0; i < m; ++i) { long x = co_await c; if (x != i) co_return -x - 1000000; sum += x; } if (co_await c != -1) co_return -5; co_return sum; };
    PBT_EQ(w.loop.sync(loop()), m * (m - 1) / 2, "sum of the generated values");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "A05", .rule = "a program of more than six nodes with exceptions, generators or suspensions; a chain of several frames",
        .assumptions = {"one event loop", "a finished task is not awaited again"}, .quickCapS = 60},
        {{"programs", programs, 60000, 2000000, 20}, {"abandoned", abandoned, 3000, 60000, 20, true}, {"long", longRuns, 400, 10000, 40}});
}

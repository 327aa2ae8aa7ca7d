// technique: property-based testing (stateful): generated sets of endpoints registered on real servers directly and through controllers with injected dependencies, generated request histories over raw sockets, and stops asked for in every way while handlers are held in the middle of a request, against a model of what was registered and an independent reader of the answers
#include <common/net.hpp>
#include <HXLibs/net/ApiMacro.hpp>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using namespace std::chrono_literals; using pbt::Gen; using pbt::quote;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using Idle = decltype(300_ms); using S = std::string; using Clock = std::chrono::steady_clock;
static constexpr HttpMethod kM[] = {HttpMethod::GET, HttpMethod::HEAD, HttpMethod::POST, HttpMethod::PUT, HttpMethod::TRACE, HttpMethod::PATCH, HttpMethod::CONNECT, HttpMethod::OPTIONS, HttpMethod::DEL};
static constexpr char const* kMN[] = {"GET", "HEAD", "POST", "PUT", "TRACE", "PATCH", "CONNECT", "OPTIONS", "DELETE"};
static constexpr unsigned kAll = 511, kSets[] = {kAll, 1 | 4, 8 | 256, 2, 16 | 32 | 64 | 128};      // the sets of methods endpoints are registered for
struct Route { int id; int set, shape, icept, via; S path() const { return "/r" + std::to_string(id) + (char const*[]){"", "/{x}", "/**", "/k/{x}/z"}[shape]; } };      // icept: 0 none, 1 counted, 2 vetoed, 3 counted then vetoed
struct Dep { int tag; };
struct World {
    std::mutex m; std::map<int, int> before, after, ran; std::atomic<int> entered{0}, left{0}, inits{0}, lateInits{0}; std::atomic<bool> release{false}; std::atomic<bool> stopped{false}; std::string err; HttpServer* server = nullptr; std::function<void()> stop;
    std::vector<void const*> injected; void fail(S s) { std::lock_guard _{m}; if (err.empty()) err = std::move(s); }
};
struct Count { World* w; int id; bool before(Req&, Res&) { std::lock_guard _{w->m}; ++w->before[id]; return true; } bool after(Req&, Res&) { std::lock_guard _{w->m}; ++w->after[id]; return true; } };
struct Veto { World* w; int id; coroutine::Task<bool> before(Req& q, Res& r) { co_await r.setStatusAndContent(Status::CODE_403, "veto" + std::to_string(id)).sendRes(); co_return false; } };
static S param(Req& q, int shape) { return shape == 1 || shape == 3 ? q.getPathParam(0).to<S>() : shape == 2 ? S(q.getUniversalWildcardPath()) : S{}; }
static coroutine::Task<> serve(World& w, Route const& r, Dep const& d, Req& q, Res& s) {
    { std::lock_guard _{w.m}; ++w.ran[r.id]; } S m{q.getReqType()};
    co_await s.setStatusAndContent(Status::CODE_200, std::to_string(r.id) + ":" + m + ":" + param(q, r.shape) + ":" + std::to_string(d.tag)).addHeader("X-Route", std::to_string(r.id)).sendRes();
}
// registers the route on a server, or from inside a controller
struct Plain { World* w; Route r; std::shared_ptr<Dep> d; coroutine::Task<> operator()(Req& q, Res& s) const { return serve(*w, r, *d, q, s); } };
template <class T> static void reg(T& t, World& w, Route r, std::shared_ptr<Dep> d) {
    auto p = r.path(); Plain f{&w, r, d}; Count c{&w, r.id}; Veto v{&w, r.id};
    switch (r.set * 4 + r.icept) {
    case 0: t.addEndpoint(p, f); break; case 1: t.addEndpoint(p, f, c); break; case 2: t.addEndpoint(p, f, v); break; case 3: t.addEndpoint(p, f, c, v); break;
    case 4: t.template addEndpoint<HttpMethod::GET, HttpMethod::POST>(p, [&w, r, d] ENDPOINT { co_await serve(w, r, *d, req, res); }); break; case 5: t.template addEndpoint<HttpMethod::GET, HttpMethod::POST>(p, f, c); break; case 7: t.template addEndpoint<HttpMethod::GET, HttpMethod::POST>(p, f, Count{&w, r.id}, Veto{&w, r.id}); break;
    case 8: t.template addEndpoint<HttpMethod::PUT, HttpMethod::DEL>(p, f); break; case 12: t.template addEndpoint<HttpMethod::HEAD>(p, f); break; case 16: t.template addEndpoint<HttpMethod::TRACE, HttpMethod::PATCH, HttpMethod::CONNECT, HttpMethod::OPTIONS>(p, f); break;
    default: _exit(98);
    }
}
HX_CONTROLLER(ByReference) {
    HX_ENDPOINT_MAIN(World& w, std::vector<Route> const& rs, std::shared_ptr<Dep> const& d) { { std::lock_guard _{w.m}; w.injected.push_back(&w); w.injected.push_back(&rs); w.injected.push_back(d.get()); } for (auto& r : rs) if (r.via == 1) reg(*this, w, r, d); }
};
HX_CONTROLLER(ByValue) {
    HX_ENDPOINT_MAIN(std::unique_ptr<World*> w, std::vector<Route> rs, std::shared_ptr<Dep> d) { for (auto& r : rs) if (r.via == 2) reg(*this, **w, r, d); }
};
HX_CONTROLLER(Template) {
    HX_ENDPOINT_TEMPLATE_HEAD
    template <typename D, typename... Rs> HX_ENDPOINT_TEMPLATE_MAIN(World* w, D const& d, Rs const&... rs) { ([&] { for (auto& r : rs) if (r.via == 3) reg(*this, *w, r, d); }(), ...); }
};
#include <HXLibs/net/UnApiMacro.hpp>
// ports that are free, kept for this process by a name in the abstract socket space
struct Port {
    int guard = -1; std::uint16_t port = 0;
    Port() { static unsigned next = (unsigned)::getpid() * 41; for (;;) { unsigned p = 11000 + next++ % 20000; S n = "pbt-n19-port-" + std::to_string(p); sockaddr_un a{}; a.sun_family = AF_UNIX; memcpy(a.sun_path + 1, n.data(), n.size()); guard = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (::bind(guard, (sockaddr*)&a, (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + n.size()))) { ::close(guard); continue; }
        int t = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; ::setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in i{}; i.sin_family = AF_INET; i.sin_port = htons((std::uint16_t)p); int e = ::bind(t, (sockaddr*)&i, sizeof i); if (!e) e = ::listen(t, 1); ::close(t); if (e) { ::close(guard); continue; } port = (std::uint16_t)p; return; } }
    Port(Port const&) = delete; ~Port() { ::close(guard); }
};
static int dial(std::uint16_t port) { int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in i{}; i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); i.sin_port = htons(port); if (::connect(s, (sockaddr*)&i, sizeof i)) { ::close(s); return -1; } timeval t{8, 0}; ::setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); return s; }
static std::size_t listeners(std::uint16_t port) { std::size_t n = 0; FILE* f = fopen("/proc/net/tcp", "r"); if (!f) return 99; char b[512]; unsigned lp, st; while (fgets(b, sizeof b, f)) if (sscanf(b, "%*d: %*8x:%x %*8x:%*x %x", &lp, &st) == 2 && lp == port && st == 10) ++n; fclose(f); return n; }
struct Conn { int fd = -1; Clock::time_point last; ~Conn() { drop(); } void drop() { if (fd >= 0) ::close(fd); fd = -1; } };
enum class Got { Answer, Closed, Nothing };
// one answer; `more` is what followed it
static Got answer(int fd, bool head, nt::Msg& m, S& more) {
    S b; char buf[4096];
    for (;;) {
        auto e = b.find("\r\n\r\n"); if (e != b.npos) { std::size_t pos = 0; try { m = nt::readMsg(b, pos, true, head); more = b.substr(pos); return Got::Answer; } catch (nt::Bad const& x) { if (x.why.find("body has") == x.why.npos && x.why.find("chunk") == x.why.npos && x.why.find("not ended") == x.why.npos) PBT_FAIL("the answer is malformed: " << x.why << " in " << quote(b, 300)); } }
        auto n = ::recv(fd, buf, sizeof buf, 0); if (n > 0) { b.append(buf, (std::size_t)n); continue; }
        if (n < 0 && errno == EINTR) continue;
        if (b.empty()) return n == 0 || errno == ECONNRESET ? Got::Closed : Got::Nothing;
        PBT_FAIL("the answer ends in the middle (" << (n == 0 ? "closed" : strerror(errno)) << "): " << quote(b, 300));
    }
}
static bool ended(int fd) { char b[64]; for (;;) { auto n = ::recv(fd, b, sizeof b, 0); if (n < 0 && errno == EINTR) continue; if (n > 0) PBT_FAIL("bytes after the last answer: " << quote(S(b, (std::size_t)n), 60)); return n == 0 || errno == ECONNRESET; } }
static bool send(int fd, S const& s) { return ::send(fd, s.data(), s.size(), MSG_NOSIGNAL) == (ssize_t)s.size(); }

static void life(Gen& g) {
    std::size_t nr = 1 + g.draw(6), threads = 1 + g.draw(3), nc = 1 + g.draw(3), inflight = g.chance(70, 100) ? g.draw(4) : 0, nq = g.size(14); bool sync = g.chance(30, 100), again = g.chance(25, 100), idle = g.chance(8, 100), fromHandler = g.chance(25, 100); int how = sync ? (int)g.draw(2) : (int)g.draw(3); bool chain = g.boolean(); long waitUs = g.chance(50, 100) ? 0 : (long)g.draw(4000); bool pipelined = g.chance(20, 100);
    std::vector<Route> rs; S d = std::to_string(threads) + " threads" + (sync ? ", syncRun" : "") + "; "; bool ctl = false;
    for (std::size_t i = 0; i < nr; ++i) { Route r{(int)i, (int)g.draw(std::size(kSets)), (int)g.draw(4), g.chance(40, 100) ? 0 : (int)g.draw(4), (int)g.draw(4)}; if (r.set > 1) r.icept = 0; if (r.set == 1 && r.icept == 2) r.icept = 3; ctl |= r.via > 0; d += r.path() + " set " + std::to_string(r.set) + (char const*[]){"", " counted", " vetoed", " counted, vetoed"}[r.icept] + (char const*[]){" server", " controller by reference", " controller by value", " controller template"}[r.via] + "; "; rs.push_back(r); }
    struct Q { std::size_t conn; int route, method; S seg; bool close; }; std::vector<Q> qs;
    for (std::size_t i = 0; i < nq; ++i) { Q q{g.draw(nc), g.chance(85, 100) ? (int)g.draw(nr) : -1, (int)g.draw(9), g.strUpTo("abc019-_.~", 8, 1), g.chance(8, 100)}; if (q.route >= 0 && g.chance(60, 100)) for (int t = 0; t < 12 && !(kSets[rs[(std::size_t)q.route].set] >> q.method & 1); ++t) q.method = (int)g.draw(9); qs.push_back(q); d += S(kMN[q.method]) + " " + (q.route < 0 ? "?" : "r" + std::to_string(q.route)) + " on " + std::to_string(q.conn) + (q.close ? " close" : "") + ", "; }
    d += std::to_string(inflight) + " in flight" + (pipelined ? " with a request behind each" : "") + ", stopped " + (fromHandler ? "from a handler" : (char const*[]){"synchronously", "asynchronously", "by destruction"}[how]) + " after " + std::to_string(waitUs) + " us" + (idle ? ", idle connections" : "") + (again ? ", started twice" : ""); g.describe(d); g.nontrivial(ctl || inflight); g.label(inflight ? "in flight" : "at rest");
    nt::Quiet quiet; Port port; World w; auto dep = std::make_shared<Dep>(Dep{7000 + (int)nr}); auto server = std::make_unique<HttpServer>(port.port); w.server = server.get();
    for (auto& r : rs) if (r.via == 0) { if (chain) { struct Chained { HttpServer* s; } c{server.get()}; reg(*c.s, w, r, dep); } else reg(*server, w, r, dep); }
    server->addController<ByReference>(w, rs, dep).addController<ByValue>(std::make_unique<World*>(&w), rs, dep).addController<Template>(&w, dep, rs);
    PBT_CHECK((w.injected == std::vector<void const*>{&w, &rs, dep.get()}), "the controller was not given the objects it was registered with");
    server->addEndpoint<HttpMethod::GET>("/held", [&w](Req& q, Res& s) -> coroutine::Task<> { coroutine::EventLoop& loop = q.getIO(); ++w.entered; while (!w.release) co_await loop.makeTimer().sleepFor(200us); co_await s.setStatusAndContent(Status::CODE_200, S(20000, 'h')).sendRes(); ++w.left; });
    server->addEndpoint<HttpMethod::POST>("/stop", [&w](Req&, Res& s) -> coroutine::Task<> { w.stop(); co_await s.setStatusAndContent(Status::CODE_200, "stopping").sendRes(); });
    w.stop = [&] { w.server->asyncStop(); };
    auto init = [&] { ++w.inits; if (listeners(port.port)) w.fail("the server listens before init() was called"); };
    std::thread runner; std::atomic<bool> returned{false};
    if (sync) { runner = std::thread([&] { server->syncRun<Idle>(threads, init, Idle{}); returned = true; }); auto end = Clock::now() + 10s; while (listeners(port.port) < threads && Clock::now() < end) usleep(200); }
    else server->asyncRun<Idle>(threads, init, Idle{});
    auto finish = [&] { w.release = true; if (sync) { if (server) server->syncStop(); runner.join(); } server.reset(); };
    struct Guard { std::function<void()> f; ~Guard() { if (f) f(); } } guard{finish};
    PBT_EQ(w.inits.load(), 1, "calls of init()"); PBT_EQ(listeners(port.port), threads, "listening sockets once the server was started");
    if (again) { bool thrown = false; try { server->asyncRun<Idle>(1, [&] { ++w.lateInits; }, Idle{}); } catch (std::runtime_error const&) { thrown = true; } PBT_CHECK(thrown, "starting a running server again did not throw"); PBT_EQ(w.lateInits.load(), 0, "init() calls of the refused start"); PBT_EQ(listeners(port.port), threads, "listening sockets after the refused start"); }
    std::deque<Conn> cs(nc); std::map<int, int> wantRan, wantBefore, wantAfter;
    for (auto& q : qs) {
        auto& c = cs[q.conn]; S path = q.route < 0 ? "/none/" + q.seg : "/r" + std::to_string(q.route), want404; S par; if (q.route >= 0) switch (rs[(std::size_t)q.route].shape) { case 1: path += "/" + q.seg; par = q.seg; break; case 2: path += "/" + q.seg + "/t"; par = "/" + q.seg + "/t"; break; case 3: path += "/k/" + q.seg + "/z"; par = q.seg; break; default: break; }
        S text = S(kMN[q.method]) + " " + path + " HTTP/1.1\r\nHost: h\r\nContent-Length: 0\r\n" + (q.close ? "Connection: close\r\n" : "") + "\r\n"; nt::Msg m; S more; bool head = q.method == 1;
        for (int tries = 0;; ++tries) {
            if (c.fd < 0) { c.last = Clock::now(); c.fd = dial(port.port); PBT_CHECK(c.fd >= 0, "the running server refuses a connection: " << strerror(errno)); }
            auto t0 = c.last; bool ok = send(c.fd, text); auto r = ok ? answer(c.fd, head, m, more) : Got::Closed;
            if (r == Got::Answer) break;
            c.drop(); PBT_CHECK(r == Got::Closed && Clock::now() - t0 > 140ms && tries < 5, "no answer to " << quote(text, 100) << (r == Got::Closed ? ": the connection was closed although it was not idle" : " within 8 s"));
        }
        c.last = Clock::now(); PBT_EQ(more, S{}, "bytes after the answer");
        auto status = m.start.substr(0, 12); bool served = q.route >= 0 && (kSets[rs[(std::size_t)q.route].set] >> q.method & 1);
        if (!served) { PBT_EQ(status, S("HTTP/1.1 404"), "the status of " << kMN[q.method] << " " << path << ", which is not registered"); }
        else {
            auto& r = rs[(std::size_t)q.route]; bool veto = r.icept >= 2; if (r.icept & 1) { ++wantBefore[r.id]; ++wantAfter[r.id]; } if (!veto) ++wantRan[r.id];
            PBT_EQ(status, S(veto ? "HTTP/1.1 403" : "HTTP/1.1 200"), "the status of " << kMN[q.method] << " " << path);
            if (!veto) { PBT_EQ(m.head["x-route"], std::to_string(r.id), "the route that answered " << kMN[q.method] << " " << path); S want = std::to_string(r.id) + ":" + kMN[q.method] + ":" + par + ":" + std::to_string(dep->tag); if (head) PBT_EQ(m.head["content-length"], std::to_string(want.size()), "the length announced for HEAD " << path); else PBT_EQ(m.body, want, "the answer to " << kMN[q.method] << " " << path); }
        }
        if (q.close) { PBT_CHECK(ended(c.fd), "the connection stays open after Connection: close"); c.drop(); }
    }
    { std::lock_guard _{w.m}; PBT_CHECK(w.ran == wantRan, "handlers ran " << pbt::show(w.ran) << " but expected " << pbt::show(wantRan)); }
    for (auto end = Clock::now() + 3s; Clock::now() < end;) { { std::lock_guard _{w.m}; if (w.after == wantAfter) break; } usleep(200); }      // after() runs once the answer was sent
    { std::lock_guard _{w.m}; PBT_CHECK(w.before == wantBefore && w.after == wantAfter, "interceptors ran " << pbt::show(w.before) << " / " << pbt::show(w.after) << " but expected " << pbt::show(wantBefore)); }
    if (!idle) for (auto& c : cs) c.drop();
    // requests held in their handlers while the server is stopped
    std::deque<Conn> hs(inflight); for (auto& h : hs) { h.fd = dial(port.port); PBT_CHECK(h.fd >= 0, "the running server refuses a connection"); if (!send(h.fd, S("GET /held HTTP/1.1\r\nHost: h\r\n\r\n") + (pipelined ? "GET /none HTTP/1.1\r\nHost: h\r\n\r\n" : ""))) PBT_FAIL("cannot send"); }
    for (auto end = Clock::now() + 8s; w.entered < (int)inflight && Clock::now() < end;) usleep(100);
    PBT_EQ(w.entered.load(), (int)inflight, "requests that reached their handler");
    if (fromHandler) { Conn c; c.fd = dial(port.port); nt::Msg m; S more; if (c.fd < 0 || !send(c.fd, "POST /stop HTTP/1.1\r\nHost: h\r\nContent-Length: 0\r\n\r\n") || answer(c.fd, false, m, more) != Got::Answer) PBT_FAIL("the request that stops the server gets no answer"); PBT_EQ(m.body, S("stopping"), "the answer to the request that stops the server"); }
    std::thread stopper([&] { if (!fromHandler) { if (how == 0) server->syncStop(); else if (how == 1) server->asyncStop(); } if (sync) { while (!returned) usleep(100); } else if (how != 0 || fromHandler) server.reset(); w.stopped = true; });
    guard.f = [&] { w.release = true; stopper.join(); finish(); };
    if (waitUs) usleep((useconds_t)waitUs);
    if (inflight) PBT_CHECK(!w.stopped, "the server counts as stopped while requests are being handled");
    w.release = true;
    for (auto& h : hs) { nt::Msg m; S more; auto r = answer(h.fd, false, m, more); PBT_CHECK(r == Got::Answer, "a request that was being handled when the server was stopped is not answered"); PBT_EQ(m.start.substr(0, 12), S("HTTP/1.1 200"), "the status of a request held during the stop"); PBT_CHECK(m.body == S(20000, 'h'), "the answer to a request held during the stop has " << m.body.size() << " bytes");
        if (pipelined) { if (more.empty()) { nt::Msg m2; S rest; if (answer(h.fd, false, m2, rest) == Got::Answer) { PBT_EQ(m2.start.substr(0, 12), S("HTTP/1.1 404"), "the status of the request behind it"); PBT_CHECK(ended(h.fd), "the connection stays open after the stop"); } } }
        else PBT_CHECK(more.empty() && ended(h.fd), "the connection stays open after the stop, or carries other bytes"); }
    auto t0 = Clock::now(); while (!w.stopped && Clock::now() - t0 < 15s) usleep(100); PBT_CHECK(w.stopped, "the server does not stop although every request has been answered");
    guard.f = nullptr; stopper.join(); if (runner.joinable()) runner.join(); PBT_EQ(w.left.load(), (int)inflight, "held handlers that ran to their end");
    PBT_EQ(listeners(port.port), std::size_t(0), "listening sockets after the stop"); server.reset(); int again2 = dial(port.port); if (again2 >= 0) ::close(again2); PBT_CHECK(again2 < 0, "the stopped server still accepts connections");
    PBT_EQ(dep.use_count(), 1L, "owners of the injected object once the server is gone"); PBT_CHECK(w.err.empty(), w.err);
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N26",
        .rule = "non-trivial: endpoints registered through a controller, or requests being handled when the server is stopped",
        .assumptions = {"a server is started once"}, .quickCapS = 60},
        {{"life", life, 1600, 60000, 60, true}});
}

// technique: property-based testing (stateful): generated call histories of several clients (blocking, pooled and coroutine, over HTTP and HTTPS) against real multi-threaded servers on the loopback interface, with dropped, cut, idle and refused connections, failing handlers, restarts and stops, compared with what the handlers saw and were told to answer
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/Api.hpp>
#include <HXLibs/net/client/HttpClientPool.hpp>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <deque>
#include <filesystem>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using namespace std::chrono_literals; using namespace std::string_literals; using pbt::Gen; using pbt::quote;
using Idle = decltype(150_ms); using Brief = decltype(50_ms); using Long = decltype(20_s);
enum class M { Get, Post, Put, Del, Head, Upload, Ws };
static char const* kName[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "POST", "GET"};
struct Seen { std::string method, path, body, server; HeaderHashMap headers; };
struct Op {
    int id = 0, client = 0, server = 0; M m = M::Get; bool rel = false; std::string host, tail; HeaderHashMap headers; std::string body;      // the call; server: 0, 1, 2 the relay, 3 nobody
    int status = 200, fails = 0, slowUs = 0; bool file = false; HeaderHashMap resHeaders; std::string resBody;                                // what the handler is to do
    bool close = false, closeBefore = false; int pauseMs = 0; int count = 0;                                                                   // count: messages of a WebSocket
    bool ran = false, ok = false; std::string error; ResponseData got; std::size_t cutsDuring = 0; bool fresh = false; long gapMs = 0;     // gapMs: since the client's last call
};
struct World { std::mutex m; std::map<int, Op*> ops; std::map<int, std::vector<Seen>> seen; std::map<int, int> calls; std::string err; void fail(std::string s) { std::lock_guard _{m}; if (err.empty()) err = std::move(s); } };
static World* gw;
static std::string tmp(std::string const& n) { return pbt::scratch() + "/n19." + n; }
static void write(std::string const& p, std::string const& s) { FILE* f = fopen(p.c_str(), "w"); if (!f) _exit(98); fwrite(s.data(), 1, s.size(), f); fclose(f); }
template <class IO> static coroutine::Task<> handle(HttpRequest<IO>& q, HttpResponse<IO>& r, std::string server) {
    int id = 0; auto it = q.getHeaders().find("x-id"); if (it != q.getHeaders().end()) id = std::atoi(it->second.c_str());
    Op* op = nullptr; { std::lock_guard _{gw->m}; if (auto i = gw->ops.find(id); i != gw->ops.end()) op = i->second; }
    if (!op) { co_await r.setStatusAndContent(Status::CODE_200, "unknown request").sendRes(); co_return; }
    std::string b; if (op->m != M::Head) b = co_await q.template parseBody<Long>(); int n;
    { std::lock_guard _{gw->m}; gw->seen[id].push_back({std::string(q.getReqType()), std::string(q.getReqPath()), b, server, q.getHeaders()}); n = ++gw->calls[id]; }
    if (op->slowUs) { coroutine::EventLoop& loop = q.getIO(); co_await loop.makeTimer().sleepFor(std::chrono::microseconds(op->slowUs)); }
    if (n <= op->fails) throw std::runtime_error("the handler fails");
    for (auto& [k, v] : op->resHeaders) r.addHeader(k, v); r.addHeader("X-Re", std::to_string(id)); r.addHeader("X-Server", server);
    if (op->file) { co_await r.setResLine((Status)op->status).useChunkedEncodingTransferFile(tmp("res." + std::to_string(id))); co_return; }
    co_await r.setStatusAndContent((Status)op->status, op->resBody).sendRes();
}
template <class IO> static coroutine::Task<> socket(HttpRequest<IO>& q, HttpResponse<IO>& r) {
    auto ws = co_await WebSocketFactory{q, r}.accept(); for (;;) { auto s = co_await ws.recvText(); co_await ws.sendText("re:" + s); }
}
// ports that are free, kept for this process by a name in the abstract socket space
struct Port {
    int guard = -1; std::uint16_t port = 0;
    Port() { static unsigned next = (unsigned)::getpid() * 37; for (;;) { unsigned p = 11000 + next++ % 20000; std::string n = "pbt-n19-port-" + std::to_string(p); sockaddr_un a{}; a.sun_family = AF_UNIX; memcpy(a.sun_path + 1, n.data(), n.size()); guard = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (::bind(guard, (sockaddr*)&a, (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + n.size()))) { ::close(guard); continue; }
        int t = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; ::setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in i{}; i.sin_family = AF_INET; i.sin_port = htons((std::uint16_t)p); int e = ::bind(t, (sockaddr*)&i, sizeof i); if (!e) e = ::listen(t, 1); ::close(t); if (e) { ::close(guard); continue; } port = (std::uint16_t)p; return; } }
    Port(Port const&) = delete; ~Port() { ::close(guard); }
};
static bool reachable(std::uint16_t port) { int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in i{}; i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); i.sin_port = htons(port); bool r = !::connect(s, (sockaddr*)&i, sizeof i); ::close(s); return r; }
static std::size_t listeners(std::uint16_t port) { std::size_t n = 0; FILE* f = fopen("/proc/net/tcp", "r"); if (!f) return 99; char b[512]; unsigned lp, st; while (fgets(b, sizeof b, f)) if (sscanf(b, "%*d: %*8x:%x %*8x:%*x %x", &lp, &st) == 2 && lp == port && st == 10) ++n; fclose(f); return n; }
template <class Server, class IO, class Idle> struct Running {
    std::unique_ptr<Server> s; std::uint16_t port; std::size_t threads; std::string name;
    Running(std::uint16_t p, std::size_t t, std::string n) : port(p), threads(t), name(std::move(n)) { start(); }
    void start() {
        s = std::make_unique<Server>(port); auto n = name;
        s->template addEndpoint<GET, POST, PUT, DEL, HEAD>("/e/**", [n](HttpRequest<IO>& q, HttpResponse<IO>& r) -> coroutine::Task<> { co_await handle<IO>(q, r, n); });
        if constexpr (std::is_same_v<IO, HttpIO>) s->template addEndpoint<GET>("/ws", [](HttpRequest<IO>& q, HttpResponse<IO>& r) -> coroutine::Task<> { co_await socket<IO>(q, r); });
        s->template asyncRun<Idle>(threads, []{}, Idle{});
    }
    void ready() { auto end = std::chrono::steady_clock::now() + 10s; while (listeners(port) < threads && std::chrono::steady_clock::now() < end) usleep(300); }
    void stop(int how) { if (how == 0) s->syncStop(); else if (how == 1) s->asyncStop(); s.reset(); }
};
// passes bytes on to a server, cutting connections after a number of response bytes
struct Relay {
    int lst; std::uint16_t port, to; std::deque<long> cuts; std::atomic<std::size_t> cut{0}; std::atomic<bool> stop{false}; bool rst; std::thread t;
    Relay(std::uint16_t target, std::deque<long> c, bool rst) : to(target), cuts(std::move(c)), rst(rst) { lst = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t al = sizeof a; if (::bind(lst, (sockaddr*)&a, sizeof a) || ::listen(lst, 64) || ::getsockname(lst, (sockaddr*)&a, &al)) _exit(98); port = ntohs(a.sin_port); t = std::thread([this] { run(); }); }
    ~Relay() { stop = true; t.join(); ::close(lst); }
    struct Conn { int c, s; long left; std::string toS, toC; bool endC = false, endS = false; };
    void run() {
        std::vector<Conn> v; auto drop = [&](std::size_t i, bool hard) { if (hard) { linger l{1, 0}; ::setsockopt(v[i].c, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(v[i].c); ::close(v[i].s); v.erase(v.begin() + (long)i); };
        while (!stop) {
            std::vector<pollfd> p{{lst, POLLIN, 0}}; for (auto& c : v) { p.push_back({c.c, (short)((c.toS.size() < 65536 && !c.endC ? POLLIN : 0) | (c.toC.empty() ? 0 : POLLOUT)), 0}); p.push_back({c.s, (short)((c.toC.size() < 65536 && !c.endS ? POLLIN : 0) | (c.toS.empty() ? 0 : POLLOUT)), 0}); }
            if (::poll(p.data(), p.size(), 5) <= 0) continue; std::size_t had = v.size();
            if (p[0].revents) { int c = ::accept4(lst, nullptr, nullptr, SOCK_CLOEXEC); if (c >= 0) { int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in i{}; i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); i.sin_port = htons(to); long left = -1; if (!cuts.empty()) { left = cuts.front(); cuts.pop_front(); } if (::connect(s, (sockaddr*)&i, sizeof i)) { ::close(c); ::close(s); ++cut; } else v.push_back({c, s, left, {}, {}}); } }
            for (std::size_t i = had; i-- > 0;) {
                auto& c = v[i]; char b[16384]; bool gone = false; auto& pc = p[1 + 2 * i]; auto& ps = p[2 + 2 * i];
                if (pc.revents & (POLLIN | POLLHUP | POLLERR) && !c.endC) { auto n = ::recv(c.c, b, sizeof b, MSG_DONTWAIT); if (n > 0) c.toS.append(b, (std::size_t)n); else if (n == 0) c.endC = true; else if (errno != EAGAIN) gone = true; }
                if (ps.revents & (POLLIN | POLLHUP | POLLERR) && !c.endS) { auto n = ::recv(c.s, b, sizeof b, MSG_DONTWAIT); if (n > 0) c.toC.append(b, (std::size_t)n); else if (n == 0) c.endS = true; else if (errno != EAGAIN) gone = true; }
                if (!c.toS.empty()) { auto n = ::send(c.s, c.toS.data(), c.toS.size(), MSG_DONTWAIT | MSG_NOSIGNAL); if (n > 0) c.toS.erase(0, (std::size_t)n); else if (errno != EAGAIN) gone = true; }
                if (!c.toC.empty()) { auto m = c.left >= 0 ? std::min<std::size_t>(c.toC.size(), (std::size_t)c.left) : c.toC.size(); auto n = m ? ::send(c.c, c.toC.data(), m, MSG_DONTWAIT | MSG_NOSIGNAL) : 0; if (n > 0) { c.toC.erase(0, (std::size_t)n); if (c.left >= 0) c.left -= n; } else if (m && errno != EAGAIN) gone = true; if (c.left == 0 && !gone) { ++cut; drop(i, rst); continue; } }
                if (gone || (c.endC && c.toS.empty()) || (c.endS && c.toC.empty())) { drop(i, false); continue; }
            }
        }
        while (!v.empty()) drop(0, false);
    }
};
static std::string token(Gen& g, std::size_t n) { return g.strUpTo("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-._~", n, 1); }
static HeaderHashMap someHeaders(Gen& g, char const* prefix) { HeaderHashMap h; std::size_t n = g.size(3); for (std::size_t i = 0; i < n; ++i) h.insert({prefix + std::to_string(i), g.chance(5, 100) ? std::string(1 + g.draw(6000), 'v') : "v" + g.strUpTo("abcXYZ019 ,;=\"/()", 30) + "."}); return h; }
static std::string someBody(Gen& g) { return g.blob(g.chance(12, 100) ? g.draw(300000) : g.sizeNear({0, 1, 8191, 16384, 65536}, 400)); }
static std::string showOp(Op const& o) { return "#" + std::to_string(o.id) + " " + (o.m == M::Upload ? "upload" : o.m == M::Ws ? "ws*" + std::to_string(o.count) : kName[(int)o.m]) + " " + (o.rel ? "(path only) " : "") + (char const*[]){"A", "B", "relay", "nobody"}[o.server] + " " + std::to_string(o.body.size()) + "B->" + std::to_string(o.status) + " " + std::to_string(o.resBody.size()) + "B" + (o.file ? " file" : "") + (o.fails ? " fails*" + std::to_string(o.fails) : "") + (o.pauseMs ? " after " + std::to_string(o.pauseMs) + "ms" : "") + (o.closeBefore ? " after close" : "") + (o.close ? " Connection: close" : ""); }
struct Urls { std::uint16_t port[4]; char const* scheme; };
static std::string target(Op const& o) { return o.m == M::Ws ? "/ws" : "/e/" + std::to_string(o.id) + "/" + o.tail; }
static std::string urlOf(Op const& o, Urls const& u) { return o.rel ? target(o) : std::string(o.m == M::Ws ? "ws" : u.scheme) + "://" + o.host + ":" + std::to_string(u.port[o.server]) + target(o); }
static void done(Op& o, container::Try<ResponseData> t) { o.ran = true; o.ok = t.isVal(); if (o.ok) o.got = t.move(); else o.error = t.what(); }
enum class Kind { Blocking, Queued, Pool, Coroutine };
template <class Cli, class F> static void issue(Cli& c, Op& o, std::string url, F keep) {     // keep: takes the future
    HeaderHashMap h = o.headers; auto body = o.body; auto type = body.empty() ? HttpContentType::None : HttpContentType::Text;
    switch (o.m) {
    case M::Get: keep(c.template get<Long>(url, h)); break; case M::Post: keep(c.template post<Long>(url, body, type, h)); break;
    case M::Put: keep(c.template request<PUT, Long>(url, h, std::move(body), type)); break; case M::Del: keep(c.template request<DEL, Long>(url, h, std::move(body), type)); break;
    case M::Head: keep(c.template request<HEAD, Long>(url, h)); break; case M::Upload: write(tmp("up." + std::to_string(o.id)), o.body); keep(c.template uploadChunked<POST, Long>(url, tmp("up." + std::to_string(o.id)), HttpContentType::Text, h)); break; default: break;
    }
}
template <class IO, class Cli> static void webSocket(Cli& cli, Op& o, std::string url) {
    auto f = cli.template wsLoop<Long>(url, [n = o.count, tag = o.tail](WebSocketClient<IO> ws) -> coroutine::Task<std::string> { std::string all; for (int i = 0; i < n; ++i) { co_await ws.sendText(tag + std::to_string(i)); all += co_await ws.recvText() + "|"; } co_return all; });
    auto t = f.get(); o.ran = true; o.ok = t.isVal(); if (o.ok) o.got.body = t.move(); else o.error = t.what();
}
template <class Server, class Cli, class Pool, class IO> static void history(Gen& g, bool tls) {
    std::size_t nc = 1 + g.draw(3), threads = 1 + g.draw(3), threadsB = 1; int id = 0; bool useB = g.chance(40, 100); std::size_t phases = g.chance(25, 100) ? 2 : 1; int how = (int)g.draw(3), howB = (int)g.draw(3); bool connectedAtStop = g.chance(30, 100), stopMidway = useB && g.chance(25, 100); long stopAfterUs = stopMidway ? (long)g.draw(6000) : 0; int idleBudget = 1;
    struct Client { Kind k; bool reconnect; std::size_t pool; std::vector<std::vector<Op>> ops; std::deque<long> cuts; bool rst, useRelay; }; std::vector<Client> cs(nc); std::string d = std::to_string(threads) + " threads" + (useB ? ", second server" : "") + (stopMidway ? " stopped midway" : "") + (phases > 1 ? ", restarted" : "") + (connectedAtStop ? ", clients connected at the stop" : ""); std::size_t total = 0; bool faults = stopMidway;
    for (std::size_t i = 0; i < nc; ++i) {
        auto& c = cs[i]; c.k = tls ? (Kind)g.draw(2) : (Kind)g.draw(4); c.reconnect = !g.chance(12, 100); c.pool = 1 + g.draw(3); c.useRelay = c.k != Kind::Pool && g.chance(35, 100); c.rst = g.boolean(); std::size_t cuts = c.useRelay ? 1 + g.draw(4) : 0; for (std::size_t k = 0; k < cuts; ++k) c.cuts.push_back(g.chance(25, 100) ? -1 : (long)g.sizeNear({0, 1, 15, 60, 130, 200}, tls ? 5000 : 600));
        d += "; client " + std::to_string(i) + (char const*[]){" blocking", " queued", " pool of ", " coroutine"}[(int)c.k] + (c.k == Kind::Pool ? std::to_string(c.pool) : "") + (c.reconnect ? "" : " without reconnect") + (c.useRelay ? " relay cuts" : ""); for (auto x : c.cuts) d += " " + std::to_string(x); d += ":"; int cur = -1; c.ops.resize(phases);
        for (std::size_t ph = 0; ph < phases; ++ph) { std::size_t n = g.size(7); if (ph == 0 && n == 0) n = 1; for (std::size_t k = 0; k < n; ++k) {
            Op o; o.id = ++id; o.client = (int)i; o.m = (M)g.draw(c.k == Kind::Blocking && !tls ? 7 : c.k == Kind::Pool || c.k == Kind::Coroutine ? 3 : 6); o.server = c.useRelay && g.chance(60, 100) ? 2 : useB && g.chance(30, 100) ? 1 : g.chance(6, 100) ? 3 : 0; if (o.m == M::Ws && o.server == 2) o.server = 0;
            o.rel = cur >= 0 && o.m != M::Ws && c.k != Kind::Pool && g.chance(30, 100); if (o.rel) o.server = cur; else cur = o.server == 3 ? -1 : o.server; o.host = g.boolean() ? "127.0.0.1" : "localhost"; o.tail = token(g, 20) + (g.chance(30, 100) ? "/" + token(g, 5) : "") + (g.chance(40, 100) ? "?" + token(g, 4) + "=" + token(g, 6) : "");
            if (o.m == M::Post || o.m == M::Put || o.m == M::Upload || (o.m == M::Del && g.boolean())) o.body = someBody(g); o.headers = someHeaders(g, "X-H"); o.headers.insert({"X-Id", std::to_string(o.id)}); if (o.m == M::Ws) { o.count = 1 + (int)g.draw(4); o.tail = token(g, 20); }
            o.status = g.oneof<int>({200, 200, 200, 201, 404, 500}); o.fails = g.chance(8, 100) ? 1 + (int)g.draw(2) : 0; o.slowUs = g.chance(20, 100) ? (int)g.draw(3000) : 0; o.file = g.chance(15, 100); o.resHeaders = someHeaders(g, "x-r"); o.resBody = someBody(g); if (o.file && o.resBody.empty()) o.file = false; if (o.file) o.status = 200;
            o.close = g.chance(8, 100); if (o.close) o.headers.insert({"Connection", "close"}); o.closeBefore = c.k != Kind::Queued && g.chance(6, 100); if (idleBudget && g.chance(3, 100)) { o.pauseMs = 210; --idleBudget; } faults |= o.fails || o.server >= 2 || o.pauseMs || o.closeBefore; d += " " + showOp(o) + ";"; c.ops[ph].push_back(std::move(o)); ++total; } if (ph + 1 < phases) d += " |"; }
    }
    g.describe(d); g.nontrivial(total > 2 && (nc > 1 || faults)); g.label(faults || phases > 1 ? "faults" : "undisturbed");
    World w; gw = &w; Port pa, pb, dead; nt::Quiet quiet; for (auto& c : cs) for (auto& p : c.ops) for (auto& o : p) { w.ops[o.id] = &o; if (o.file) write(tmp("res." + std::to_string(o.id)), o.resBody); }
    {
        Running<Server, IO, Idle> a(pa.port, threads, "A"); std::unique_ptr<Running<Server, IO, Idle>> b; if (useB) b = std::make_unique<Running<Server, IO, Idle>>(pb.port, threadsB, "B"); a.ready(); if (b) b->ready();
        std::vector<std::thread> ts; std::mutex bm; std::condition_variable bcv; std::size_t arrived = 0; int phaseNow = 0; bool release = !connectedAtStop; auto barrier = [&](int next) { std::unique_lock l{bm}; ++arrived; bcv.notify_all(); bcv.wait(l, [&] { return phaseNow >= next; }); };
        for (auto& c : cs) ts.emplace_back([&] {
            std::unique_ptr<Relay> relay; if (c.useRelay) relay = std::make_unique<Relay>(pa.port, c.cuts, c.rst); Urls u{{pa.port, pb.port, relay ? relay->port : (std::uint16_t)0, dead.port}, tls ? "https" : "http"}; auto cutsNow = [&] { return relay ? relay->cut.load() : 0; };
            std::unique_ptr<Cli> cli; std::unique_ptr<Pool> pool; std::shared_ptr<coroutine::EventLoop> loop; if (c.k == Kind::Pool) { pool = std::make_unique<Pool>(c.pool); if (c.pool == 3) pool->resize(2); if (c.pool == 2) pool->resize(4); } else if (c.k == Kind::Coroutine) { loop = std::make_shared<coroutine::EventLoop>(); cli = std::make_unique<Cli>(HttpClientOptions<>{}, loop); } else cli = std::make_unique<Cli>(); if (cli) cli->setAutoReconnect(c.reconnect);
            auto last = std::chrono::steady_clock::now(); auto gap = [&] { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - last).count(); };
            for (std::size_t ph = 0; ph < phases; ++ph) {
                if (ph) barrier((int)ph);
                std::vector<std::pair<Op*, container::FutureResult<container::Try<ResponseData>>>> fs;
                if (c.k == Kind::Coroutine) {
                    auto script = [&]() -> coroutine::Task<> { for (auto& o : c.ops[ph]) { if (o.pauseMs) co_await loop->makeTimer().sleepFor(std::chrono::milliseconds(o.pauseMs)); if (o.closeBefore) co_await cli->coClose(); o.fresh = cli->needConnect(); auto url = urlOf(o, u); auto n = cutsNow(); auto body = o.body; HeaderHashMap h = o.headers; auto type = body.empty() ? HttpContentType::None : HttpContentType::Text;
                        if (o.m == M::Get) done(o, co_await cli->template coRequest<GET, Long>(url, h)); else if (o.m == M::Post) done(o, co_await cli->template coRequest<POST, Long>(url, h, std::move(body), type)); else done(o, co_await cli->template coRequest<PUT, Long>(url, h, std::move(body), type)); o.cutsDuring = cutsNow() - n; o.gapMs = gap(); last = std::chrono::steady_clock::now(); } if (ph + 1 == phases) co_await cli->coClose(); };
                    loop->sync(script()); continue;
                }
                for (auto& o : c.ops[ph]) {
                    if (o.pauseMs) std::this_thread::sleep_for(std::chrono::milliseconds(o.pauseMs)); if (o.closeBefore) { for (auto& [q, f] : fs) done(*q, f.get()); fs.clear(); if (pool) pool->close(); else cli->close(); } auto url = urlOf(o, u); auto n = cutsNow();
                    if (o.m == M::Ws) { if constexpr (std::is_same_v<IO, HttpIO>) { o.fresh = cli->needConnect(); webSocket<IO>(*cli, o, url); } continue; }
                    auto keep = [&](auto f) { if (c.k == Kind::Blocking) { done(o, f.get()); o.cutsDuring = cutsNow() - n; o.gapMs = gap(); last = std::chrono::steady_clock::now(); } else { fs.emplace_back(&o, std::move(f)); o.cutsDuring = 1; } };
                    if (c.k == Kind::Blocking) o.fresh = cli->needConnect();
                    if (pool) { if constexpr (std::is_same_v<IO, HttpIO>) issue(*pool, o, url, keep); } else issue(*cli, o, url, keep);
                }
                for (auto& [o, f] : fs) done(*o, f.get());
            }
            if (connectedAtStop) { std::unique_lock l{bm}; ++arrived; bcv.notify_all(); bcv.wait(l, [&] { return release; }); }
        });
        if (stopMidway) { usleep((useconds_t)stopAfterUs); b->stop(howB); b.reset(); }
        if (phases > 1) { { std::unique_lock l{bm}; bcv.wait(l, [&] { return arrived == nc; }); arrived = 0; } a.stop(how); PBT_CHECK(!reachable(pa.port), "the server still listens after it was stopped"); a.start(); a.ready(); { std::lock_guard l{bm}; phaseNow = 1; } bcv.notify_all(); }
        if (connectedAtStop) { std::unique_lock l{bm}; bcv.wait(l, [&] { return arrived == nc; }); } else for (auto& t : ts) t.join();
        auto t0 = std::chrono::steady_clock::now(); a.stop(how); if (b) b->stop(howB); auto took = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); bool still = reachable(pa.port) || (useB && reachable(pb.port));
        if (connectedAtStop) { { std::lock_guard l{bm}; release = true; } bcv.notify_all(); for (auto& t : ts) t.join(); }
        PBT_CHECK(!still, "the server still listens after it was stopped"); PBT_CHECK(took < 6000, "stopping took " << took << " ms although connections idle only 150 ms");
    }
    PBT_CHECK(w.err.empty(), w.err);
    for (auto& c : cs) { bool stale = true; int cur = -2; for (auto& p : c.ops) { bool restarted = &p != &c.ops[0]; for (auto& o : p) {
        auto tag = showOp(o) + ": "; PBT_CHECK(o.ran, tag + "the call never ended"); auto& seen = w.seen[o.id]; bool bGone = stopMidway && o.server == 1;
        // the connection in use may be gone before this call: closed by the server, by a failing handler, a restart or a cut
        bool gone = stale || restarted || o.pauseMs || o.gapMs > 60 || cur != o.server; restarted = false; cur = o.server; stale = o.fails > 0 || o.server == 2 || bGone || c.k == Kind::Pool || o.close;
        bool mustWork = o.server != 3 && !bGone && (c.reconnect || o.fresh || !gone) && (o.server != 2 || (c.k == Kind::Blocking || c.k == Kind::Coroutine ? !o.cutsDuring && (c.reconnect || o.fresh) : false)) && o.fails <= (c.reconnect ? 1 : 0); if (!c.reconnect && c.k == Kind::Queued) mustWork = false; if (!c.reconnect && c.k == Kind::Pool) mustWork = o.server != 3 && !bGone && o.fails <= 1;
        if (o.fails && (gone && !o.fresh)) mustWork = false; bool retries = c.reconnect || c.k == Kind::Pool, mustFail = o.server == 3 || (o.m != M::Ws && o.fails >= (retries ? 2 : 1));
        if (mustWork && o.m != M::Ws) PBT_CHECK(o.ok, tag << "failed with '" << o.error << "'"); if (mustFail) PBT_CHECK(!o.ok, tag << "succeeded");
        if (o.m == M::Ws) { if (o.server != 3 && !bGone && c.reconnect) PBT_CHECK(o.ok, tag << "failed with '" << o.error << "'"); if (o.ok) { std::string want; for (int i = 0; i < o.count; ++i) want += "re:" + o.tail + std::to_string(i) + "|"; PBT_EQ(o.got.body, want, tag << "the echoed messages"); } stale = true; continue; }
        if (o.server == 3) { PBT_EQ(seen.size(), 0u, tag << "times a server saw it"); continue; }
        std::size_t most = o.fails || o.server == 2 || bGone ? 2 : 1; if (!retries) most = 1; PBT_CHECK(seen.size() <= most && (!o.ok || !seen.empty()), tag << "the server saw it " << seen.size() << " times"); if (o.fails && mustWork) PBT_EQ(seen.size(), (std::size_t)o.fails + 1, tag << "times the server saw it");
        for (auto& s : seen) { PBT_EQ(s.method, std::string(kName[(int)o.m]), tag << "method"); PBT_EQ(s.path, target(o), tag << "target"); PBT_EQ(s.server, std::string(o.server == 1 ? "B" : "A"), tag << "server"); PBT_EQ(s.body.size(), o.body.size(), tag << "body size"); PBT_CHECK(s.body == o.body, tag << "the body differs"); for (auto& [k, v] : o.headers) { auto it = s.headers.find(nt::low(k)); PBT_CHECK(it != s.headers.end() && it->second == v, tag << "header " << k << " is " << (it == s.headers.end() ? "missing" : quote(it->second, 80)) << " instead of " << quote(v, 80)); } }
        if (o.ok) { auto& r = o.got; PBT_EQ(r.status, o.status, tag << "status"); PBT_EQ(r.headers["x-re"], std::to_string(o.id), tag << "answer to request"); for (auto& [k, v] : o.resHeaders) PBT_EQ(quote(r.headers[k], 80), quote(v, 80), tag << "response header " << k); std::string const body = o.m == M::Head ? std::string{} : o.resBody; PBT_EQ(r.body.size(), body.size(), tag << "response size"); PBT_CHECK(r.body == body, tag << "the response body differs"); }
        std::error_code ec; if (o.file) std::filesystem::remove(tmp("res." + std::to_string(o.id)), ec); if (o.m == M::Upload) std::filesystem::remove(tmp("up." + std::to_string(o.id)), ec); } } }
}
static void prepare() {
    static bool done = [] {
        auto* k = EVP_EC_gen("P-256"); auto* x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), -3600); X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365); X509_set_pubkey(x, k); X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (unsigned char const*)"localhost", -1, -1, 0); X509_set_issuer_name(x, X509_get_subject_name(x)); X509_sign(x, k, EVP_sha256());
        auto c = tmp("cert.pem"), p = tmp("key.pem"); FILE* f = fopen(c.c_str(), "w"); PEM_write_X509(f, x); fclose(f); f = fopen(p.c_str(), "w"); PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr); fclose(f); X509_free(x); EVP_PKEY_free(k);
        SslContext::get().init<SslContext::SslType::Server>({SslVerifyOption::None, c, p}); SslContext::get().init<SslContext::SslType::Client>({SslVerifyOption::None, "", ""}); return true; }(); (void)done;
}
static void http(Gen& g) { history<HttpServer, HttpClient<NoneProxy>, HttpClientPool<NoneProxy>, HttpIO>(g, false); }
static void https(Gen& g) { prepare(); history<HttpsServer, HttpsClient<NoneProxy>, HttpsClientPool<NoneProxy>, HttpsIO>(g, true); }
// servers stopped right after they were started, by every way of stopping, also when their port is taken
static void stops(Gen& g) {
    std::size_t n = 1 + g.draw(4), threads = 1 + g.draw(4); int how = (int)g.draw(3); long us = g.boolean() ? 0 : (long)g.draw(2000); std::size_t idle = g.draw(4); bool half = g.boolean(); g.describe(std::to_string(threads) + " threads stopped after " + std::to_string(us) + " us " + (char const*[]){"synchronously", "asynchronously", "by destruction"}[how] + " with " + std::to_string(idle) + " silent connections, " + std::to_string(n) + " times"); g.nontrivial(n > 1 || idle); g.label(us ? "running" : "just started");
    Port p; nt::Quiet q; World w; gw = &w;
    for (std::size_t i = 0; i < n; ++i) {
        std::vector<int> fds; auto t0 = std::chrono::steady_clock::now();
        { Running<HttpServer, HttpIO, Brief> s(p.port, threads, "A"); if (us) usleep((useconds_t)us); if (idle) s.ready(); for (std::size_t k = 0; k < idle; ++k) { int f = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(p.port); if (::connect(f, (sockaddr*)&a, sizeof a)) PBT_FAIL("the running server does not accept a connection"); if (half) { (void)!::send(f, "GET /e/x HT", 11, MSG_NOSIGNAL); } fds.push_back(f); } s.stop(how); }
        auto took = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); for (int f : fds) ::close(f); PBT_CHECK(!reachable(p.port), "the server still listens after it was stopped"); PBT_CHECK(took < 6000, "starting and stopping took " << took << " ms although connections idle only 150 ms");
    }
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N19",
        .rule = "non-trivial: more than two calls, by several clients or with a fault (failing handler, cut, idle or closed connection, refused connection, restart or stop of a server); for the stop histories: repeated, or with silent connections",
        .assumptions = {"clients are closed and given up only after their calls have ended", "connections to localhost are made over IPv4"}, .quickCapS = 90},
        {{"http", http, 700, 40000, 60, true}, {"https", https, 260, 20000, 60, true}, {"stops", stops, 500, 15000, 60, true}});
}

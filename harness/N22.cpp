// technique: property-based testing: generated stall points, trickles and resumptions on many concurrent reads and writes with timeouts, judged by measured send times, photo finishes included
// opt: -O1
#include <common/ws.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Clock = std::chrono::steady_clock; using Ms = std::chrono::duration<double, std::milli>;
enum Kind { Raw, ReqHead, ReqBody, ReqChunked, SaveFile, ResHead, ResBody, ResChunked, Sse, WsFrame, WsMessage, SendRaw, kKinds };
static char const* kName[] = {"recvLinkTimeout", "request head", "request body", "chunked request body", "saveToFile", "response head", "response body", "chunked response body", "event stream", "websocket frame", "websocket frame after others", "sendLinkTimeout"};
struct Piece { std::string bytes; double gapMs; Clock::time_point pre{}, post{}; bool sent = false; };
struct Conn {
    Kind kind; std::string wire, want; std::vector<Piece> pieces; bool completes; std::size_t head = 0;      // want: what must be delivered
    int lib = -1, peer = -1; std::string path;
    bool over = false, success = false; std::string got, err; Clock::time_point from{}, at{}; double limit = 0; bool odd = false;
};
template <class T> static coroutine::Task<bool> reads(Conn& c, coroutine::EventLoop& loop, HttpIO& io) {
    switch (c.kind) {
    case Raw: { char b[64]; auto r = co_await io.template recvLinkTimeout<T>(std::span<char>{b, 64}); if (r.index() == 1) co_return false; int n = r.template get<0>(); if (n <= 0) { c.err = "recv returned " + std::to_string(n); co_return true; } c.got.assign(b, (std::size_t)n); co_return true; }
    case ReqHead: { HttpRequest<HttpIO> q{io}; if (!co_await q.template parserReqHead<T>()) co_return false; c.got = std::string(q.getReqType()) + " " + std::string(q.getReqPath()); co_return true; }
    case ReqBody: case ReqChunked: { HttpRequest<HttpIO> q{io}; if (!co_await q.template parserReqHead<T>()) co_return false; c.got = co_await q.template parseBody<T>(); co_return true; }
    case SaveFile: { HttpRequest<HttpIO> q{io}; if (!co_await q.template parserReqHead<T>()) co_return false; co_await q.template saveToFile<T>(c.path); int f = ::open(c.path.c_str(), O_RDONLY); char b[4096]; for (ssize_t n; (n = ::read(f, b, sizeof b)) > 0;) c.got.append(b, (std::size_t)n); ::close(f); co_return true; }
    case ResHead: { HttpResponse<HttpIO> q{io}; if (!co_await q.template parserResHead<T>()) co_return false; c.got = std::string(q.getStatusCode()); co_return true; }
    case ResBody: case ResChunked: { HttpResponse<HttpIO> q{io}; if (!co_await q.template parserRes<T>()) co_return false; c.got = q.getBody(); co_return true; }
    case Sse: { HttpResponse<HttpIO> q{io}; if (!co_await q.template parserResHead<T>()) co_return false; auto gen = q.template parserSseStrem<T>(); auto e = co_await gen; c.got = e.data; co_return true; }
    case WsFrame: case WsMessage: { WebSocketServer<HttpIO> ws{io, {}}; auto p = co_await ws.template recv<true, T>(OpCode::Text, OpCode::Binary); c.got = p.content; co_return true; }
    case SendRaw: co_await io.template sendLinkTimeout<T>(c.wire); co_return true;
    default: co_return false;
    }
}
template <class T> static coroutine::RootTask<> drive(Conn& c, coroutine::EventLoop& loop) {
    HttpIO io{c.lib, loop}; c.from = Clock::now();
    try { c.success = co_await reads<T>(c, loop, io); } catch (std::exception const& e) { c.err = e.what(); } catch (...) { c.err = "?"; }
    c.at = Clock::now(); c.over = true; co_await io.close();
}
static coroutine::RootTask<> plain(coroutine::EventLoop& loop, int fd) { char c; co_await loop.makeAioTask().prepRecv(fd, std::span<char>{&c, 1}, 0); }
template <class T> static void runAll(std::vector<std::unique_ptr<Conn>>& cs) {
    coroutine::EventLoop loop; for (auto& c : cs) { c->limit = Ms(T::StdChronoVal).count(); }
    std::atomic<bool> go{false};
    std::thread feeder([&] {
        struct Ev { double at; Conn* c; std::size_t i; bool operator<(Ev const& o) const { return at > o.at; } }; std::vector<Ev> q; while (!go) usleep(20); auto t0 = Clock::now();
        for (auto& c : cs) if (c->kind != SendRaw && !c->pieces.empty()) q.push_back({c->pieces[0].gapMs, c.get(), 0}); std::make_heap(q.begin(), q.end());
        while (!q.empty()) { std::pop_heap(q.begin(), q.end()); auto e = q.back(); q.pop_back(); std::this_thread::sleep_until(t0 + std::chrono::duration_cast<Clock::duration>(Ms(e.at))); auto& p = e.c->pieces[e.i]; p.pre = Clock::now(); (void)!::send(e.c->peer, p.bytes.data(), p.bytes.size(), MSG_NOSIGNAL | MSG_DONTWAIT); p.post = Clock::now(); p.sent = true;
            if (e.i + 1 < e.c->pieces.size()) { q.push_back({Ms(p.post - t0).count() + e.c->pieces[e.i + 1].gapMs, e.c, e.i + 1}); std::push_heap(q.begin(), q.end()); } }
    });
    // writes: the peer takes what it takes at the given moments
    std::thread taker([&] { while (!go) usleep(20); auto t0 = Clock::now(); for (auto& c : cs) if (c->kind == SendRaw) for (auto& p : c->pieces) { (void)t0; std::this_thread::sleep_for(std::chrono::duration_cast<Clock::duration>(Ms(p.gapMs))); p.pre = Clock::now(); std::string b(1 << 20, '\0'); for (ssize_t n; (n = ::recv(c->peer, b.data(), b.size(), MSG_DONTWAIT)) > 0;) c->got.append(b.data(), (std::size_t)n); p.post = Clock::now(); p.sent = true; } });
    int extra[2]; if (cs[0]->odd) { if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, extra)) _exit(98); (void)!::send(extra[1], "q", 1, 0); plain(loop, extra[0]).detach(); }
    for (auto& c : cs) drive<T>(*c, loop).detach();
    go = true; loop.run(); feeder.join(); taker.join(); if (cs[0]->odd) { ::close(extra[0]); ::close(extra[1]); }
}
static std::string body(Gen& g) { return g.chance(20, 100) ? std::string(1 + g.size(3000), (char)('a' + g.draw(26))) : g.strUpTo("abcdef0123", 40, 1); }
static std::string chunks(Gen& g, std::string const& b) { std::string w; char h[24]; for (std::size_t p = 0; p < b.size();) { auto n = 1 + g.draw(std::min<std::size_t>(b.size() - p, 1 + g.draw(800))); std::snprintf(h, sizeof h, "%zx\r\n", n); w += h; w += b.substr(p, n); w += "\r\n"; p += n; } return w + "0\r\n\r\n"; }
static void build(Gen& g, Conn& c) {
    auto b = body(g); auto n = std::to_string(b.size());
    auto head = [&](std::string h) { c.wire = h; c.head = h.size(); };
    switch (c.kind) {
    case Raw: case SendRaw: c.wire = g.strUpTo("xyz", 20, 1); c.want = c.wire; break;
    case ReqHead: head("GET /" + b.substr(0, 20) + " HTTP/1.1\r\nHost: x\r\nX-Y: " + b.substr(0, 60) + "\r\n\r\n"); c.want = "GET /" + b.substr(0, 20); break;
    case ReqBody: case SaveFile: head("POST / HTTP/1.1\r\nContent-Length: " + n + "\r\n\r\n"); c.wire += b; c.want = b; break;
    case ReqChunked: head("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"); c.wire += chunks(g, b); c.want = b; break;
    case ResHead: head("HTTP/1.1 200 OK\r\nContent-Length: 0\r\nX-Y: " + b.substr(0, 60) + "\r\n\r\n"); c.want = "200"; break;
    case ResBody: head("HTTP/1.1 200 OK\r\nContent-Length: " + n + "\r\n\r\n"); c.wire += b; c.want = b; break;
    case ResChunked: head("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"); c.wire += chunks(g, b); c.want = b; break;
    case Sse: head("HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n\r\n"); c.wire += "data: " + b + "\n\n"; c.want = b; break;
    case WsMessage: case WsFrame: { if (c.kind == WsMessage) { wsf::Frame f; f.masked = true; f.op = 10; f.data = g.blob(g.draw(30)); c.wire += wsf::encode(f); c.head = c.wire.size(); } wsf::Frame f; f.masked = true; f.data = b; f.key = {1, 2, 3, 4}; if (g.boolean() && b.size() > 1) { f.fin = false; f.data = b.substr(0, b.size() / 2); c.wire += wsf::encode(f); f.fin = true; f.op = 0; f.data = b.substr(b.size() / 2); } c.wire += wsf::encode(f); c.want = b; break; }
    default: break;
    }
}
enum Mode { Stalls, Photo };
static void group(Gen& g, Mode mode, double T, std::size_t maxConns, auto runner) {
    std::size_t n = 1 + g.size(maxConns); if (maxConns > 400) n = 400 + g.draw(maxConns - 400); std::string d; std::vector<std::unique_ptr<Conn>> cs; bool anyStall = false;
    for (std::size_t i = 0; i < n; ++i) {
        auto c = std::make_unique<Conn>(); c->kind = maxConns > 400 ? (g.chance(80, 100) ? Raw : ReqHead) : (Kind)g.draw(kKinds); if (mode == Photo && c->kind == SendRaw) c->kind = Raw; build(g, *c); c->path = pbt::scratch() + "/f" + std::to_string(i);
        int s[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) { perror("socketpair"); _exit(98); } c->lib = s[0]; c->peer = s[1];
        std::size_t len = c->wire.size(), upto = len; c->completes = g.chance(mode == Photo ? 90 : 40, 100);
        if (c->kind == SendRaw) {   // the peer stops reading; the socket holds less than we write
            int sz = 4096; ::setsockopt(c->lib, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); c->wire = std::string(c->completes ? 1 + g.draw(500) : 400000 + g.draw(100000), 'w'); c->want = c->wire; if (!c->completes) anyStall = true;
            d += std::string(kName[c->kind]) + (c->completes ? " fits; " : " stalls; "); cs.push_back(std::move(c)); continue;
        }
        if (!c->completes && c->kind == Raw) { upto = 0; anyStall = true; } else if (!c->completes) { upto = g.chance(30, 100) && c->head ? std::min(len - 1, c->head + g.draw(3) - (c->head > 1)) : g.draw(len); anyStall = true; }
        std::size_t cuts = c->kind == Raw ? 0 : g.draw(4); std::set<std::size_t> at; for (std::size_t k = 0; k < cuts && upto > 1; ++k) at.insert(1 + g.draw(upto - 1)); at.insert(upto); std::size_t p = 0; bool first = true;
        for (auto q : at) if (q > p) { double gap = mode == Photo ? (first || g.chance(40, 100) ? T + ((double)g.draw(200) - 120) * 0.005 : 0) : g.chance(50, 100) ? 0 : (double)g.draw(6) * T / 10; c->pieces.push_back({c->wire.substr(p, q - p), gap}); p = q; first = false; }
        d += std::string(kName[c->kind]) + " " + std::to_string(upto) + "/" + std::to_string(len) + " in"; for (auto& x : c->pieces) d += " " + std::to_string((int)x.gapMs) + "ms:" + std::to_string(x.bytes.size()); d += "; "; cs.push_back(std::move(c));
    }
    cs[0]->odd = g.boolean(); if (cs[0]->odd) d = "one plain read; " + d;
    g.describe("timeout " + std::to_string((int)T) + " ms, " + std::to_string(n) + " connections: " + d.substr(0, 1500)); g.nontrivial(anyStall || mode == Photo); { std::set<int> ks; for (auto& c : cs) ks.insert(c->kind); for (int k : ks) g.label(kName[k]); }
    runner(cs); std::string err;
    for (std::size_t i = 0; i < n && err.empty(); ++i) {
        auto& c = *cs[i]; auto say = [&](std::string const& s) { err = "connection " + std::to_string(i) + " (" + kName[c.kind] + ", " + std::to_string(c.pieces.size()) + " pieces): " + s; };
        if (!c.over) { say("the operation never ended"); break; }
        bool late = false; auto since = c.from; for (auto& p : c.pieces) { if (p.sent && Ms(p.post - since).count() >= T) late = true; since = std::max(c.from, p.pre); }
        auto waited = Ms(c.at - since).count();
        if (c.kind == SendRaw) { if (c.completes != c.success) say(c.success ? "a write that does not fit into the socket succeeded although nobody read" : "a write failed although it fitted: " + c.err); else if (!c.success && waited < T) say("the write gave up after " + std::to_string(waited) + " ms"); else if (waited > T + 6000) say("the write took " + std::to_string(waited) + " ms"); continue; }
        if (c.success && c.got != c.want) { say("delivered " + quote(c.got, 80) + " instead of " + quote(c.want, 80) + " " + c.err); break; }
        if (c.success && !c.completes) { say("data was delivered as complete although only a part of it was sent: " + quote(c.got, 80)); break; }
        if (late || mode == Photo) continue;
        if (!c.success && c.completes) say("failed although every pause was shorter than the timeout: " + c.err);
        else if (!c.success && waited < T) say("gave up " + std::to_string(waited) + " ms after the last bytes were sent: " + c.err);
        else if (!c.success && waited > T + 6000) say("gave up only " + std::to_string(waited) + " ms after the last bytes");
    }
    for (auto& c : cs) ::close(c->peer);
    PBT_CHECK(err.empty(), err);
}
static void stalls(Gen& g) {
    if (g.chance(50, 100)) group(g, Stalls, 30, 40, runAll<decltype(30_ms)>); else group(g, Stalls, 60, 40, runAll<decltype(60_ms)>);
}
static void photo(Gen& g) { group(g, Photo, 5, 60, runAll<decltype(5_ms)>); }
static void seconds(Gen& g) { if (g.boolean()) group(g, Stalls, 1100, 60, runAll<decltype(1100_ms)>); else group(g, Stalls, 1000, 60, runAll<decltype(1_s)>); }
static void many(Gen& g) { group(g, Stalls, 200, 1500, runAll<decltype(200_ms)>); }
// a whole server connection: the head stalls, the connection is closed, nothing is handled
static void server(Gen& g) {
    std::atomic<int> handled{0}; Router<HttpIO> router; router.addEndpoint<GET, POST>("/x", [&](HttpRequest<HttpIO>& q, HttpResponse<HttpIO>& r) -> coroutine::Task<> { ++handled; auto b = co_await q.parseBody<decltype(30_ms)>(); co_await r.setStatusAndContent(Status::CODE_200, b).sendRes(); });
    std::size_t before = g.size(3); std::string w, one = "POST /x HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc"; for (std::size_t i = 0; i < before; ++i) w += one; auto cut = g.draw(one.find("\r\n\r\n") + 4); w += one.substr(0, cut);
    g.describe(std::to_string(before) + " requests, then " + std::to_string(cut) + " bytes of a head"); g.nontrivial(cut > 0);
    nt::Duplex d; (void)!::send(d.peer, w.data(), w.size(), MSG_NOSIGNAL); std::atomic_bool run{true}; auto t = Clock::now(); nt::serve<decltype(40_ms)>(d, router, run); auto waited = Ms(Clock::now() - t).count();
    PBT_EQ((std::size_t)handled.load(), before, "requests handled"); PBT_CHECK(waited >= 40, "the connection ended after " << waited << " ms"); PBT_CHECK(waited < 6000, "the connection ended only after " << waited << " ms");
    auto const& out = d.received(); std::size_t p = 0, k = 0; try { while (p < out.size()) { auto m = nt::readMsg(out, p, true); ++k; PBT_EQ(m.body, std::string("abc"), "body of response"); } } catch (nt::Bad& b) { PBT_FAIL(b.why); } PBT_EQ(k, before, "responses"); PBT_CHECK(d.peerEof.load(), "the connection was not closed");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "N22", .rule = "an operation stalls, or data arrives about when the timeout ends",
        .assumptions = {"a timeout applies to each wait for more bytes", "pauses are judged by the measured send times", "within six seconds counts as not waiting indefinitely"}, .quickCapS = 90},
        {{"stalls", stalls, 1600, 60000, 40, true}, {"photo", photo, 4000, 100000, 40, true}, {"server", server, 800, 20000, 40, true}, {"seconds", seconds, 32, 600, 60, true}, {"many", many, 40, 800, 60, true}});
}

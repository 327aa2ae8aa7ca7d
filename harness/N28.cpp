// technique: property-based testing (stateful): generated sequences of every form of client call (direct, pooled, coroutine; requests, uploads, event streams, WebSocket handshakes) against a recording server on the loopback interface that answers, stalls part-way or stays silent, compared with what each call was given
#include <common/ws.hpp>
#include <HXLibs/net/client/HttpClient.hpp>
#include <HXLibs/net/client/HttpClientPool.hpp>
#include <arpa/inet.h>
#include <fstream>
#include <poll.h>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote; using S = std::string;
using Clock = std::chrono::steady_clock; using Long = decltype(20_s); using Short = decltype(60_ms);
enum class Via { Direct, Pool, Co }; enum class M { Get, Post, Put, Patch, Upload, Ws, Sse };
static char const* const kVia[] = {"direct", "pool", "coroutine"}; static char const* const kM[] = {"GET", "POST", "PUT", "PATCH", "upload", "ws", "sse"}; static char const* const kVerb[] = {"GET", "POST", "PUT", "PATCH", "POST", "GET", "POST"};
struct Op { M m; S target, body, answer, reply; std::map<S, S> headers; HttpContentType type; bool stall; std::size_t cut; bool ok = false; S got, error; int status = 0; double ms = 0; std::vector<S> seen; bool kept = true; };
static S typeName(HttpContentType t) { switch (t) { case HttpContentType::Html: case HttpContentType::String: return "text/html; charset=UTF-8"; case HttpContentType::Json: return "application/json; charset=UTF-8"; case HttpContentType::Text: return "text/plain"; case HttpContentType::FormUrlEncode: return "application/x-www-form-urlencoded"; case HttpContentType::OctetStream: return "application/octet-stream"; case HttpContentType::Xml: return "application/xml"; default: return ""; } }
static S head(Op const& o, S const& wire) {       // what the server sends back
    if (o.m == M::Ws) { auto p = nt::low(wire).find("sec-websocket-key:"); S key; if (p != S::npos) { key = wire.substr(p + 18, wire.find("\r\n", p) - p - 18); key.erase(0, key.find_first_not_of(' ')); } return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + wsf::acceptKey(key) + "\r\n\r\n"; }
    if (o.m == M::Sse) return "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n\r\ndata: " + o.answer + "\n\n";
    return "HTTP/1.1 200 OK\r\nX-Tag: " + std::to_string(o.answer.size()) + "\r\nContent-Length: " + std::to_string(o.answer.size()) + "\r\n\r\n" + o.answer;
}
struct Server {
    int l; std::uint16_t port; std::atomic<bool> stop{false}; std::atomic<Op*> op{nullptr}; std::mutex mx; std::vector<std::thread> conns; std::thread main;
    Server() { l = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (::bind(l, (sockaddr*)&a, n) || ::listen(l, 64) || ::getsockname(l, (sockaddr*)&a, &n)) pbt::discard(); port = ntohs(a.sin_port); main = std::thread([this] { while (!stop) { pollfd p{l, POLLIN, 0}; if (::poll(&p, 1, 5) > 0) { int c = ::accept(l, nullptr, nullptr); if (c >= 0) conns.emplace_back([this, c] { talk(c); }); } } }); }
    ~Server() { stop = true; main.join(); for (auto& t : conns) t.join(); ::close(l); }
    void talk(int c) {
        S buf; auto from = Clock::now(); bool open = true;
        while (!stop && open && Clock::now() - from < std::chrono::seconds(8)) {
            pollfd p{c, POLLIN, 0}; if (::poll(&p, 1, 5) > 0) { char b[8192]; auto n = ::recv(c, b, sizeof b, MSG_DONTWAIT); if (n <= 0) { if (n < 0 && errno == EAGAIN) continue; break; } buf.append(b, (std::size_t)n); from = Clock::now(); }
            std::size_t pos = 0; if (buf.empty()) continue; try { nt::readMsg(buf, pos, false); } catch (nt::Bad&) { continue; }
            auto* o = op.load(); if (!o) break; auto wire = buf.substr(0, pos); buf.erase(0, pos); auto r = head(*o, wire); { std::lock_guard _{mx}; o->seen.push_back(wire); if (!buf.empty()) o->seen.push_back("(more bytes) " + buf); } if (o->stall) r.resize(std::min(o->cut, r.size() - 1 - (o->m == M::Sse)));
            for (std::size_t at = 0; at < r.size();) { auto n = ::send(c, r.data() + at, r.size() - at, MSG_NOSIGNAL); if (n <= 0) { open = false; break; } at += (std::size_t)n; }
            if (o->m == M::Sse && !o->stall) open = false;
        }
        ::shutdown(c, SHUT_RDWR); ::close(c);
    }
};
static HeaderHashMap mapOf(std::map<S, S> const& h) { HeaderHashMap r; for (auto& [k, v] : h) r[k] = v; return r; }
static void take(Op& o, container::Try<ResponseData> t) { o.ok = t.isVal(); if (!o.ok) { o.error = t.what(); return; } auto r = t.move(); o.status = (int)r.status; o.got = r.body; if (auto it = r.headers.find("x-tag"); it == r.headers.end() || it->second != std::to_string(o.answer.size())) o.got = "the answer lost its header"; }
static void take(Op& o, container::Try<S> t) { o.ok = t.isVal(); if (!o.ok) o.error = t.what(); else o.got = t.move(); o.status = 101; }
static S file(Op const& o) { auto p = pbt::scratch() + "/n28.up"; std::ofstream f(p, std::ios::binary); f.write(o.body.data(), (long)o.body.size()); return p; }
template <class T, class C> static void plain(C& c, Op& o, S url) {
    auto h = mapOf(o.headers); S body = o.body;
    switch (o.m) {
    case M::Get: return take(o, c.template get<T>(url, h).get()); case M::Post: return take(o, c.template post<T>(url, body, o.type, h).get());
    case M::Put: take(o, c.template request<PUT, T>(url, h, body, o.type).get()); o.kept = body == o.body; return; case M::Patch: return take(o, c.template request<HttpMethod::PATCH, T>(url, h, std::move(body), o.type).get());
    case M::Upload: return take(o, c.template uploadChunked<POST, T>(url, file(o), o.type, h).get());
    default: return take(o, c.template wsLoop<T>(url, [a = o.answer](WebSocketClient<HttpIO>) -> coroutine::Task<S> { co_return a; }, h).get());
    }
}
template <class T, class C> static coroutine::Task<> co(C& c, Op& o, S url) {
    auto h = mapOf(o.headers); S body = o.body;
    switch (o.m) {
    case M::Get: take(o, co_await c.template coGet<T>(url, h)); break; case M::Post: take(o, co_await c.template coPost<T>(url, body, o.type, h)); break;
    case M::Put: take(o, co_await c.template coRequest<PUT, T>(url, h, body, o.type)); o.kept = body == o.body; break; case M::Patch: take(o, co_await c.template coRequest<HttpMethod::PATCH, T>(url, h, std::move(body), o.type)); break;
    case M::Upload: take(o, co_await c.template coUploadChunked<POST, T>(url, file(o), o.type, h)); break;
    case M::Ws: take(o, co_await c.template coWsLoop<T>(url, [a = o.answer](WebSocketClient<HttpIO>) -> coroutine::Task<S> { co_return a; }, h)); break;
    default: { S got; auto t = co_await c.template coSseLoop<POST, T>(url, [&](SseEvent e) -> coroutine::Task<> { got += e.data; co_return; }, h, std::move(body), o.type); o.ok = !got.empty(); o.got = got; o.error = t.isVal() ? "" : t.what(); o.status = 200; }
    }
}
static void calls(Gen& g) {
    auto via = (Via)g.draw(3); bool reconnect = g.boolean() || via == Via::Pool; std::size_t n = 1 + g.draw(5), size = 1 + g.draw(3); std::vector<Op> ops; S d = S(kVia[(int)via]) + (reconnect ? "" : " without reconnect"); bool rich = false;
    bool sse = via == Via::Co && g.chance(20, 100);
    for (std::size_t i = 0; i < n; ++i) {
        Op o; o.m = (M)g.draw(6); if (sse && i + 1 == n) o.m = M::Sse; o.target = "/" + g.strUpTo("ab/c.-", 8) + (g.chance(40, 100) ? "?" + g.strUpTo("a=b&1", 8, 1) : ""); while (o.target.find("//") != S::npos) o.target.erase(o.target.find("//"), 1); if (o.m != M::Get && o.m != M::Ws) o.body = g.chance(20, 100) ? g.str("xyz\r\n", 1 + g.draw(30000)) : g.blob(g.size(300));
        o.answer = o.m == M::Sse || o.m == M::Ws ? g.strUpTo("abc", 20, 1) : g.blob(g.size(200)); o.type = g.oneof<HttpContentType>({HttpContentType::Html, HttpContentType::Json, HttpContentType::Text, HttpContentType::String, HttpContentType::FormUrlEncode, HttpContentType::OctetStream, HttpContentType::Xml, HttpContentType::None}); if (o.m == M::Get || o.m == M::Ws) o.type = HttpContentType::None;
        for (auto k = g.draw(4); k; --k) { auto name = g.oneof<S>({"X-A", "X-B", "Cookie", "Authorization", "User-Agent", "accept", "Content-Type", "If-None-Match", "x-forwarded-for"}); if (o.m == M::Ws && name == "Content-Type") continue; bool dup = false; for (auto& [q, v] : o.headers) dup |= nt::low(q) == nt::low(name); if (!dup) o.headers[name] = g.strUpTo("abc 1;=/", 12, 1); }
        for (auto& [k, v] : o.headers) { v.erase(0, std::min(v.find_first_not_of(' '), v.size())); v.erase(v.find_last_not_of(' ') + 1); if (v.empty()) v = "v"; }
        o.stall = g.chance(35, 100); o.cut = o.stall ? (g.chance(40, 100) ? 0 : g.draw(160)) : 0; rich |= o.stall || !o.headers.empty(); d += S("; ") + kM[(int)o.m] + " " + o.target + " " + std::to_string(o.body.size()) + "B type " + std::to_string((int)o.type); for (auto& [k, v] : o.headers) d += " " + k + "=" + v; if (o.stall) d += ", the server stalls after " + std::to_string(o.cut) + " bytes"; ops.push_back(std::move(o));
    }
    g.describe(d); g.nontrivial(n > 1 && rich); g.label(kVia[(int)via]);
    {
        nt::Quiet q; Server s; auto urlOf = [&](Op& o) { return S(o.m == M::Ws ? "ws" : "http") + "://127.0.0.1:" + std::to_string(s.port) + o.target; };
        std::unique_ptr<HttpClient<NoneProxy>> cli; std::unique_ptr<HttpClientPool<NoneProxy>> pool; std::shared_ptr<coroutine::EventLoop> loop;
        if (via == Via::Pool) pool = std::make_unique<HttpClientPool<NoneProxy>>(size); else if (via == Via::Co) { loop = std::make_shared<coroutine::EventLoop>(); cli = std::make_unique<HttpClient<NoneProxy>>(HttpClientOptions<>{}, loop); } else cli = std::make_unique<HttpClient<NoneProxy>>();
        if (cli) cli->setAutoReconnect(reconnect);
        auto timed = [&](Op& o, auto f) { s.op = &o; auto t = Clock::now(); f(); o.ms = std::chrono::duration<double, std::milli>(Clock::now() - t).count(); };
        if (via == Via::Co) loop->sync([&]() -> coroutine::Task<> { for (auto& o : ops) { s.op = &o; auto t = Clock::now(); if (o.stall) co_await co<Short>(*cli, o, urlOf(o)); else co_await co<Long>(*cli, o, urlOf(o)); o.ms = std::chrono::duration<double, std::milli>(Clock::now() - t).count(); } co_await cli->coClose(); }());
        else for (auto& o : ops) timed(o, [&] { auto url = urlOf(o); if (pool) { if (o.stall) plain<Short>(*pool, o, url); else plain<Long>(*pool, o, url); } else { if (o.stall) plain<Short>(*cli, o, url); else plain<Long>(*cli, o, url); } });
    }
    for (std::size_t i = 0; i < n; ++i) {
        auto& o = ops[i]; S what = "call " + std::to_string(i) + " (" + kM[(int)o.m] + ")";
        if (o.stall) { PBT_CHECK(!o.ok, what << " succeeded although the server stalled"); PBT_CHECK(o.ms >= 59.9, what << " gave up after " << o.ms << " ms with a timeout of 60 ms: " << o.error); PBT_CHECK(o.ms < 6000, what << " ended only after " << o.ms << " ms with a timeout of 60 ms"); }
        else { PBT_CHECK(o.ok, what << " failed although the server answered: " << o.error); PBT_EQ(o.status, o.m == M::Ws ? 101 : 200, "status of " << what); PBT_EQ(quote(o.got, 300), quote(o.answer, 300), "answer to " << what); PBT_EQ(o.seen.size(), (std::size_t)1, "requests the server saw for " << what); }
        PBT_CHECK(o.seen.size() <= (reconnect ? 2u : 1u), "the server saw " << o.seen.size() << " requests for " << what);
        PBT_CHECK(o.kept, what << " took the caller's own body away");
        for (auto& w : o.seen) {
            nt::Msg m; std::size_t pos = 0; try { m = nt::readMsg(w, pos, false); } catch (nt::Bad& b) { PBT_FAIL(what << ": " << b.why); } PBT_EQ(pos, w.size(), "bytes of " << what);
            PBT_EQ(m.start, S(kVerb[(int)o.m]) + " " + o.target + " HTTP/1.1", "request line of " << what); PBT_EQ(quote(m.body, 200), quote(o.body, 200), "body of " << what); PBT_CHECK(m.body == o.body, "body of " << what); PBT_EQ(m.chunked, o.m == M::Upload, "chunked coding of " << what);
            bool own = false; for (auto& [k, v] : o.headers) { auto key = nt::low(k); PBT_CHECK(m.head.contains(key), what << " lost its header " << k); PBT_EQ(m.head[key], v, "header " << k << " of " << what); PBT_EQ(m.count[key], 1, "occurrences of header " << k << " of " << what); own |= key == "content-type"; }
            if (!own && o.m != M::Ws) PBT_EQ(m.head.contains("content-type") ? m.head["content-type"] : "", typeName(o.type), "content type of " << what);
            for (auto key : {"x-a", "x-b", "cookie", "authorization", "if-none-match", "x-forwarded-for"}) { bool given = false; for (auto& [k, v] : o.headers) given |= nt::low(k) == key; PBT_CHECK(given || !m.head.contains(key), what << " carries the header " << key << " that it was not given"); }
            PBT_CHECK(m.head["host"].starts_with("127.0.0.1"), "host of " << what << ": " << quote(m.head["host"]));
        }
    }
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N28", .rule = "several calls, with own headers or a stalling server", .assumptions = {"within six seconds counts as not waiting indefinitely", "calls of one client are made one after another"}, .quickCapS = 60},
        {{"calls", calls, 1600, 40000, 60, true}});
}

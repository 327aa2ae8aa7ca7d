// technique: coverage-guided fuzzing and property-based testing of the client side: generated answers, event streams, WebSocket and proxy replies, mutated byte-wise and field-wise, cut and fragmented, and sequences of calls to a scripted server that sends interim, bodiless, damaged, cut or stalled answers; oracles: termination, sanitizers, the script
// opt: -O1
#include <common/ws.hpp>
#include <HXLibs/net/client/HttpClient.hpp>
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using namespace std::string_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using Short = decltype(250_ms); using S = std::string;
static S number(Gen& g) { switch (g.draw(8)) { case 0: return "0"; case 1: return "-1"; case 2: return "18446744073709551615"; case 3: return "18446744073709551616"; case 4: return "4294967296"; case 5: return "+3"; case 6: return ""; default: return std::to_string(g.draw(70000)); } }
static void mutate(Gen& g, S& w) {
    std::size_t n = 1 + g.size(6);
    for (std::size_t i = 0; i < n && !w.empty(); ++i) {
        auto at = g.draw(w.size()); if (g.chance(50, 100)) { auto m = nt::crlfs(w, 200); if (!m.empty()) at = std::min(w.size() - 1, g.pick(m) + g.draw(5)); }
        switch (g.draw(12)) {
        case 0: w[at] = (char)g.draw(256); break;
        case 1: w[at] = (char)(w[at] ^ (1 << g.draw(8))); break;
        case 2: w.erase(at, 1 + g.size(10)); break;
        case 3: w.insert(at, g.oneof<S>({"\r\n", "\r\n\r\n", "\n", "\r", " ", ":", "\0"s, ",", ";", "data", "retry:", "id:", "-", "\x80", "\t", "HTTP/1.1", "HTTP/1.1 100 Continue\r\n\r\n", "\n\n", "\x05\x00"s})); break;
        case 4: w.insert(at, w.substr(g.draw(w.size()), g.size(60))); break;
        case 5: { auto d = w.find_first_of("0123456789", at); if (d == w.npos) break; auto e = w.find_first_not_of("0123456789", d); w.replace(d, (e == w.npos ? w.size() : e) - d, number(g)); break; }
        case 6: w.insert(at, g.str("A", 1 + g.size(100))); break;
        case 7: w.insert(at, S(g.sizeNear({8192, 16384, 65536}, 70000), g.oneof({'A', ' ', '\r', '\n', ':', '/', '0', '\0'}))); break;
        case 8: w.resize(at); break;
        case 9: { auto e = w.find("\r\n", at); if (e != w.npos) w.erase(at, e - at); break; }
        case 10: { auto e = w.find("\r\n", at), f = e == w.npos ? e : w.find("\r\n", e + 2); if (f != w.npos) w.insert(e, w.substr(e, f - e)); break; }
        case 11: w.insert(at, g.bytes(1 + g.size(20))); break;
        }
    }
}
// a well-formed answer; its parts
struct Answer { int status; std::vector<std::pair<S, S>> fields; S body, text; S kind; };
static S chunks(Gen& g, S const& b) { S r; std::size_t p = 0; char h[24]; while (p < b.size()) { std::size_t n = 1 + g.draw(std::min<std::size_t>(b.size() - p, 400)); std::snprintf(h, sizeof h, "%zx", n); r += S(h) + (g.chance(10, 100) ? ";x=y" : "") + "\r\n" + b.substr(p, n) + "\r\n"; p += n; } return r + "0\r\n" + (g.chance(15, 100) ? "X-Trailer: t\r\n" : "") + "\r\n"; }
static S interim(Gen& g) { S r; std::size_t n = g.chance(35, 100) ? 1 + g.size(2) : 0; for (std::size_t i = 0; i < n; ++i) { r += "HTTP/1.1 " + g.oneof<S>({"100 Continue", "100 ", "102 Processing", "103 Early Hints", "199 x"}) + "\r\n"; if (g.chance(40, 100)) r += "Link: </s.css>; rel=preload\r\n"; if (g.chance(30, 100)) r += "X-Interim: " + std::to_string(i) + "\r\n"; r += "\r\n"; } return r; }
static Answer answer(Gen& g, bool head, std::vector<std::pair<S, S>> fields) {
    Answer a; a.fields = std::move(fields); a.text = interim(g); bool pre = !a.text.empty(); std::size_t n = g.size(4); for (std::size_t i = 0; i < n; ++i) a.fields.push_back({"X-F" + std::to_string(i), nt::fieldValue(g)});
    int kind = (int)g.draw(7); a.status = kind == 0 ? 204 : kind == 1 ? 304 : g.oneof<int>({200, 200, 201, 202, 203, 206, 299, 301, 400, 404, 416, 500, 503}); S b = g.chance(15, 100) ? g.str("abcdefgh\r\n0", g.sizeNear({8192, 16384, 32768, 65536}, 90000)) : g.blob(g.size(200)); S wire;
    if (kind == 0) { a.kind = "204"; if (g.boolean()) a.fields.push_back({"Content-Length", std::to_string(g.draw(50))}); }
    else if (kind == 1) { a.kind = "304"; auto f = g.draw(3); if (f == 1) a.fields.push_back({"Content-Length", std::to_string(g.draw(5000))}); else if (f == 2) a.fields.push_back({"Transfer-Encoding", "chunked"}); }
    else if (kind < 5) { a.kind = "length"; a.fields.push_back({"Content-Length", std::to_string(b.size())}); a.body = wire = b; }
    else { a.kind = "chunked"; a.fields.push_back({"Transfer-Encoding", "chunked"}); a.body = b; wire = chunks(g, b); }
    if (head) a.kind += ", HEAD", a.body.clear(), wire.clear(); if (pre) a.kind += ", interim";
    a.text += "HTTP/1.1 " + std::to_string(a.status) + " Some Reason\r\n"; for (auto& [k, v] : a.fields) a.text += k + ": " + v + "\r\n"; a.text += "\r\n" + wire; return a;
}
// several answers on one connection, read one after the other
static void answers(Gen& g) {
    struct One { Answer a; bool head; }; std::vector<One> v; S wire, d; std::size_t n = 1 + g.size(4); bool special = false;
    for (std::size_t i = 0; i < n; ++i) { bool head = g.chance(15, 100); v.push_back({answer(g, head, {{"X-Id", std::to_string(i)}}), head}); wire += v.back().a.text; d += v.back().a.kind + "; "; special |= v.back().a.kind != "length" && v.back().a.kind != "chunked"; }
    auto frags = nt::split(g, wire, nt::crlfs(wire)); g.describe(d + std::to_string(frags.size()) + " pieces: " + quote(wire, 300)); g.nontrivial(special && n > 1); g.label(special ? "interim or bodiless" : "plain");
    nt::Duplex x; x.feed(frags, g.boolean() ? nt::End::HalfClose : nt::End::Open); coroutine::EventLoop loop; HttpIO io{x.lib, loop}; HttpResponse<HttpIO> res{io}; std::size_t i = 0;
    for (auto& o : v) { auto tag = "answer " + std::to_string(i++) + " (" + o.a.kind + "): ";
        PBT_CHECK(o.head ? loop.sync(res.parserResHead<Long>()) : loop.sync(res.parserRes<Long>()), tag << "reported as incomplete");
        auto r = res.makeResponseData(); PBT_EQ(r.status, o.a.status, tag << "status"); PBT_EQ(r.headers.size(), o.a.fields.size(), tag << "number of header fields"); for (auto& [k, w] : o.a.fields) { auto it = r.headers.find(nt::low(k)); PBT_CHECK(it != r.headers.end(), tag << "field " << k << " is missing"); PBT_EQ(quote(it->second), quote(w), tag << "field " << k); }
        PBT_EQ(r.body.size(), o.a.body.size(), tag << "bytes of body"); PBT_CHECK(r.body == o.a.body, tag << "the body differs"); res.clear(); }
}
// arbitrary bytes for every kind of reader
static S events(Gen& g) { S r; std::size_t n = g.size(6); for (std::size_t i = 0; i < n; ++i) r += g.oneof<S>({"data: " + g.str("abc {}\"", 20) + "\n\n", "id: 4\nevent: x\ndata: y\n\n", ": ping\n\n", "retry: 1000\n\n", "retry: " + number(g) + "\ndata\n\n", "data:a\ndata:b\r\n\r\n", "data: " + S(g.size(40000), 'x') + "\n\n"}); return r; }
static void bytes(Gen& g) {
    static char const* const names[] = {"answer", "HEAD answer", "event stream", "WebSocket", "HTTP proxy", "SOCKS5 proxy"}; int kind = (int)g.draw(6); S w;
    switch (kind) {
    case 0: case 1: w = answer(g, kind == 1, {}).text; break;
    case 2: w = interim(g) + "HTTP/1.1 " + g.oneof<S>({"200 OK", "200 OK", "200 OK", "500 No", "204 None", "404 Not Found"}) + "\r\nContent-Type: " + g.oneof<S>({"text/event-stream", "text/event-stream", "text/event-stream; charset=utf-8", "text/html"}) + "\r\n\r\n" + events(g); break;
    case 3: { w = interim(g) + "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: @\r\n\r\n"; std::size_t n = g.size(5); for (std::size_t i = 0; i < n; ++i) { wsf::Frame f; f.op = g.oneof<int>({0, 1, 1, 2, 2, 8, 9, 10, 3}); f.fin = g.chance(85, 100); f.masked = g.chance(5, 100); f.data = g.blob(g.size(200)); w += wsf::encode(f); } break; }
    case 4: w = "HTTP/1.1 200 Connection established\r\n\r\n"; break;
    case 5: w = "\x05"s + g.oneof<S>({"\x00"s, "\x02\x01\x00"s, "\xff"s}) + "\x05\x00\x00"s + g.oneof<S>({"\x01"s + S(4, '\x7f'), "\x03\x05hello"s, "\x04"s + S(16, '\1')}) + "\x1f\x90"s; break;
    }
    S tail = g.blob(g.size(40)); w += tail; bool random = g.chance(8, 100); if (random) w = g.bytes(g.size(300)); else if (g.chance(95, 100)) mutate(g, w);
    auto end = g.chance(80, 100) ? nt::End::HalfClose : nt::End::Close; auto frags = nt::split(g, w, nt::crlfs(w)); g.describe(S(names[kind]) + ", " + std::to_string(frags.size()) + " pieces: " + quote(w, 400)); g.nontrivial(w.size() > 12); g.label(names[kind]);
    nt::Quiet quiet; nt::Duplex d; coroutine::EventLoop loop; HttpIO io{d.lib, loop}; S outcome; std::thread peer;
    if (kind == 3) peer = std::thread([&] { S q; for (;;) { char b[4096]; pollfd p{d.peer, POLLIN, 0}; if (q.find("\r\n\r\n") != q.npos) break; if (::poll(&p, 1, 10000) <= 0) break; auto k = ::recv(d.peer, b, sizeof b, MSG_DONTWAIT); if (k <= 0) break; q.append(b, (std::size_t)k); }
        auto at = nt::low(q).find("sec-websocket-key: "); S key = at == q.npos ? "" : q.substr(at + 19, 24); auto mark = w.find('@'); if (mark != w.npos) w.replace(mark, 1, wsf::acceptKey(key)); d.collect(); d.put(w, true); d.finish(nt::End::HalfClose); });
    else d.feed(frags, end);
    auto task = [&]() -> coroutine::Task<> {
        switch (kind) {
        case 0: case 1: { HttpResponse<HttpIO> r{io}; for (int i = 0; i < 50; ++i) { bool ok = kind ? co_await r.parserResHead<Long>() : co_await r.parserRes<Long>(); if (!ok) { outcome += "incomplete"; break; } auto x = r.makeResponseData(); outcome += std::to_string(x.status) + " "; PBT_CHECK(x.body.size() <= w.size(), "a body of " << x.body.size() << " bytes out of " << w.size() << " received"); r.clear(); } break; }
        case 2: { HttpResponse<HttpIO> r{io}; if (!co_await r.parserResHead<Long>()) { outcome = "incomplete"; break; } auto status = S(r.getStatusCode()); auto type = r.getHeaders().find("content-type"); bool stream = status == "200" && type != r.getHeaders().end() && type->second.find("text/event-stream") != S::npos; std::size_t n = 0; for (auto gen = r.parserSseStrem<Long>();;) { auto e = co_await gen; PBT_CHECK(stream, "an answer with status " << status << " that is no event stream was read as one"); PBT_CHECK(++n <= w.size(), "more events than bytes"); PBT_CHECK(e.data.size() <= w.size(), "more data than bytes"); } }
        case 3: { auto ws = co_await WebSocketFactory<HttpIO>::connect<Long>("ws://h:80/x", io, {}); std::size_t n = 0; for (;;) { auto p = co_await ws.recv<true, Long>(OpCode::Text, OpCode::Binary); PBT_CHECK(++n <= w.size() && p.content.size() <= w.size(), "more messages than bytes"); } }
        case 4: { HttpProxy p{io}; co_await p.connect("http://127.0.0.1:2333", "http://example.com:81/x"); outcome = "connected"; break; }
        case 5: { Socks5Proxy p{io}; co_await p.connect("socks5://u:p@127.0.0.1:2333", "http://example.com:81/x"); outcome = "connected"; break; }
        }
    };
    struct Join { std::thread& t; nt::Duplex& d; ~Join() { d.stop = true; if (t.joinable()) t.join(); } };
    { Join j{peer, d}; try { loop.sync(task()); } catch (std::exception const& e) { outcome += "refused"; } }
}
// calls to a scripted server
struct Script { S good; S sent; enum { Good, GoodClose, Cut, Junk, Mutated, Stall, Extra } how; };
struct Call { int id; int method; S body; std::vector<Script> tries; Answer a; };
struct Server {
    int lst; std::uint16_t port = 0; std::map<int, Call*> calls; std::map<int, int> seen; std::map<int, bool> flushed; std::mutex m; std::vector<std::thread> ts; std::thread t; std::atomic<bool> stop{false}; S err;
    Server() { lst = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (::bind(lst, (sockaddr*)&a, n) || ::listen(lst, 16) || ::getsockname(lst, (sockaddr*)&a, &n)) _exit(98); port = ntohs(a.sin_port); t = std::thread([this] { while (!stop) { pollfd p{lst, POLLIN, 0}; if (::poll(&p, 1, 5) <= 0) continue; int c = ::accept4(lst, nullptr, nullptr, SOCK_CLOEXEC); if (c >= 0) ts.emplace_back([this, c] { serve(c); ::close(c); }); } }); }
    ~Server() { stop = true; t.join(); for (auto& x : ts) x.join(); ::close(lst); }
    bool more(int c, S& b) { for (;;) { pollfd p{c, POLLIN, 0}; int r = ::poll(&p, 1, 5); if (r == 0) { if (stop) return false; continue; } char x[8192]; auto n = ::recv(c, x, sizeof x, MSG_DONTWAIT); if (n > 0) { b.append(x, (std::size_t)n); return true; } if (n < 0 && (errno == EAGAIN || errno == EINTR)) continue; return false; } }
    void serve(int c) {
        S b; for (;;) {
            nt::Msg q; std::size_t pos = 0; for (;;) { if (b.find("\r\n\r\n") != b.npos) { pos = 0; try { q = nt::readMsg(b, pos, false); break; } catch (nt::Bad const&) {} } if (!more(c, b)) return; }
            b.erase(0, pos); Script s; { std::lock_guard _{m}; int id = std::atoi(q.head["x-id"].c_str()); auto it = calls.find(id); if (it == calls.end()) { if (err.empty()) err = "a request nobody made: " + q.start; return; } auto k = (std::size_t)seen[id]++; s = it->second->tries[std::min(k, it->second->tries.size() - 1)]; if (q.body != it->second->body && err.empty()) err = "the body of call " + std::to_string(id) + " arrived as " + quote(q.body, 100); }
            for (std::size_t p = 0; p < s.sent.size();) { auto n = ::send(c, s.sent.data() + p, s.sent.size() - p, MSG_NOSIGNAL); if (n <= 0) return; p += (std::size_t)n; }
            if (s.how == Script::Extra) { int left = 1; for (int k = 0; k < 20000 && !::ioctl(c, TIOCOUTQ, &left) && left; ++k) usleep(100); std::lock_guard _{m}; flushed[std::atoi(q.head["x-id"].c_str())] = true; continue; }       // all of it lies in the client's socket
            if (s.how == Script::Stall) { while (more(c, b)) {} return; }
            if (s.how != Script::Good) { ::shutdown(c, SHUT_WR); S rest; while (more(c, rest)) {} return; }
        }
    }
};
static void calls(Gen& g) {
    std::vector<Call> cs; S d; bool odd = false; bool reconnect = g.chance(70, 100); std::size_t n = 2 + g.size(8); bool stalls = g.chance(4, 100);
    for (std::size_t i = 0; i < n; ++i) {
        Call c; c.id = 100 + (int)i; c.method = (int)g.draw(4); if (c.method == 1 || c.method == 3) c.body = g.str("abcdef", g.size(50)); c.a = answer(g, c.method == 2, {{"X-Id", std::to_string(c.id)}}); d += (char const*[]){"GET", "POST", "HEAD", "DELETE"}[c.method] + S(" ") + c.a.kind + ":";
        for (int t = 0; t < 2; ++t) { Script s; s.good = s.sent = c.a.text; auto x = g.draw(100); s.how = x < 52 ? Script::Good : x < 62 ? Script::Extra : x < 70 ? Script::GoodClose : x < 82 ? Script::Cut : x < 88 ? Script::Junk : x < 97 || !stalls ? Script::Mutated : Script::Stall; S finalHead = "HTTP/1.1 " + std::to_string(c.a.status);
            if (s.how == Script::Cut || s.how == Script::Stall) s.sent.resize(g.draw(s.sent.size())); else if (s.how == Script::Junk) s.sent = g.oneof<S>({"", "\r\n\r\n", "HTTP/1.1\r\n\r\n", "nonsense\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -4\r\n\r\nabcd", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 100 Continue\r\n\r\n"}); else if (s.how == Script::Mutated) mutate(g, s.sent); else if (s.how == Script::Extra) { s.sent += g.oneof<S>({"HTTP/1.1 200 OK\r\nX-Id: 1\r\nContent-Length: 5\r\n\r\nstale", "x", "\r\n", "HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 204 None\r\n\r\n", "some body", "HTTP/1.1 200 OK\r\nX-Id: 1\r\nContent-Length: 500\r\n\r\nst"}); }
            if (s.how == Script::Junk && c.method == 2 && s.sent.find("OK\r\n") != S::npos && s.sent.find("abc OK") == S::npos) s.how = Script::Mutated;        // the head of such an answer is fine
            d += S(" ") + (char const*[]){"good", "then closed", "cut", "junk", "mutated", "stalled", "with more behind it"}[s.how]; odd |= s.how != Script::Good; c.tries.push_back(s); }
        d += "; "; cs.push_back(c);
    }
    g.describe(d + (reconnect ? "reconnecting" : "")); g.nontrivial(odd && n > 2); g.label(reconnect ? "reconnecting" : "plain");
    nt::Quiet quiet; Server server; for (auto& c : cs) server.calls[c.id] = &c; auto url = "http://127.0.0.1:" + std::to_string(server.port) + "/x"; bool open = false, dead = false, unknown = false;      // what the harness knows of the client's connection
    HttpClient<NoneProxy> cli{HttpClientOptions<NoneProxy>{}}; cli.setAutoReconnect(reconnect);
    for (auto& c : cs) {
        HeaderHashMap h{{"X-Id", std::to_string(c.id)}}; bool hasStall = false; for (auto& s : c.tries) hasStall |= s.how == Script::Stall; auto r = [&]() -> container::Try<ResponseData> {
            auto go = [&]<class T>(T) { switch (c.method) { case 0: return cli.request<GET, T>(url, h).get(); case 1: return cli.request<POST, T>(url, h, S(c.body), HttpContentType::Text).get(); case 2: return cli.request<HEAD, T>(url, h).get(); default: return cli.request<DEL, T>(url, h, S(c.body), HttpContentType::Text).get(); } };
            return hasStall ? go(Short{}) : go(Long{}); }();
        auto tag = "call " + std::to_string(c.id) + " (" + c.a.kind + "): "; int seen; { std::lock_guard _{server.m}; seen = server.seen[c.id]; PBT_CHECK(server.err.empty(), server.err); }
        PBT_CHECK(seen <= (reconnect ? 2 : 1), tag << "the request was sent " << seen << " times");
        bool ok = r.isVal(); auto good = [](Script const& s) { return s.how == Script::Good || s.how == Script::GoodClose || s.how == Script::Extra; };
        // the tries the server saw end with the one whose answer was taken, if any was
        if (!unknown) {
            bool mutated = false, anyGood = false; for (int k = 0; k < seen; ++k) { auto& s = c.tries[(std::size_t)std::min(k, 1)]; mutated |= s.how == Script::Mutated; anyGood |= good(s); }
            if (ok && !mutated) PBT_CHECK(anyGood, tag << "an answer was returned, although the server sent none that is whole");
            if (!ok && !hasStall && seen && good(c.tries[(std::size_t)std::min(seen - 1, 1)])) PBT_FAIL(tag << "failed although its whole answer was sent");
            if (!ok && !hasStall && !seen && !(dead && !reconnect)) PBT_FAIL(tag << "failed without being sent");
            if (!ok && !hasStall && reconnect && seen == 1 && !dead) PBT_FAIL(tag << "was not tried again");
            if (ok && anyGood && !mutated) { auto v = r.move(); PBT_EQ(v.status, c.a.status, tag << "status"); PBT_EQ(v.headers["x-id"], std::to_string(c.id), tag << "the call whose answer was returned"); for (auto& [k, w] : c.a.fields) PBT_EQ(quote(v.headers[k]), quote(w), tag << "field " << k); PBT_CHECK(!v.headers.count("x-interim"), tag << "fields of an interim answer are in the final one"); PBT_EQ(v.body.size(), c.a.body.size(), tag << "bytes of body"); PBT_CHECK(v.body == c.a.body, tag << "the body differs"); }
        }
        auto last = seen ? c.tries[(std::size_t)std::min(seen - 1, 1)].how : Script::Good; open = ok; dead = ok && last != Script::Good && last != Script::Extra; if (seen && last == Script::Extra) for (int k = 0;; ++k) { { std::lock_guard _{server.m}; if (server.flushed[c.id]) break; } if (k > 100000) break; usleep(100); } unknown = ok && last == Script::Mutated; if (unknown && !reconnect) { cli.close(); unknown = false; dead = false; }
        if (unknown) { cli.close(); unknown = dead = false; }
    }
    (void)open; cli.close();
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N27",
        .rule = "non-trivial: a mutated or random stream of more than 12 bytes, several answers of which one is interim or has no body, or several calls of which one is answered badly",
        .assumptions = {"bytes behind an answer arrive before the next call is made", "answers without Content-Length and chunked coding have no body"}, .quickCapS = 60},
        {{"answers", answers, 12000, 1000000, 30}, {"bytes", bytes, 24000, 3000000, 30}, {"calls", calls, 900, 60000, 60, true}});
}

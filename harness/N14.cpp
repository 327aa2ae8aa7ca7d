// technique: property-based testing: generated upgrade requests and replies, complete, altered and incomplete, with frames arriving together with the handshake, against an independent reference of the handshake
// opt: -O1
#include <common/ws.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using wsf::Frame;
static std::string mixCase(Gen& g, std::string s) { switch (g.draw(4)) { case 0: return s; case 1: return nt::low(s); case 2: for (auto& c : s) c = (char)std::toupper(c); return s; default: for (auto& c : s) if (g.boolean()) c = (char)std::toupper(c); return s; } }
static std::string b64(std::string const& s) { std::string o(s.size() * 2 + 8, '\0'); int n = EVP_EncodeBlock((unsigned char*)o.data(), (unsigned char const*)s.data(), (int)s.size()); o.resize((std::size_t)n); return o; }
static std::string connectionList(Gen& g) { return g.oneof<std::string>({"", "keep-alive, ", "x-y,", "close-not , ", "keep-alive,\t"}) + mixCase(g, "Upgrade") + g.oneof<std::string>({"", ", keep-alive", ",x", " , foo"}); }
static std::string notConnection(Gen& g) { return g.oneof<std::string>({"keep-alive", "", "close", "Upgrades", "xUpgrade", "NoUpgrade, keep-alive", "Upgrade2", "Up grade", "websocket"}); }
static std::string notWebsocket(Gen& g) { return g.oneof<std::string>({"h2c", "websockets", "web-socket", "TLS/1.0", "", "xwebsocket", "web socket"}); }
using Fields = std::vector<std::pair<std::string, std::string>>;
static std::string fieldLines(Gen& g, Fields f) { std::string s; while (!f.empty()) { auto k = g.draw(f.size()); s += mixCase(g, f[k].first) + g.oneof<std::string>({": ", ": ", ":", ":  "}) + f[k].second + "\r\n"; f.erase(f.begin() + (long)k); } return s; }
static void extras(Gen& g, Fields& f) { for (std::size_t i = 0, n = g.size(3); i < n; ++i) f.push_back({"X-" + std::to_string(i), nt::fieldValue(g)}); }
static Frame message(Gen& g, bool masked) { Frame f; f.op = 1 + (int)g.draw(2); f.masked = masked; f.key = wsf::key(g); f.data = wsf::payload(g, 1000); if (f.data.size() > 3000) f.data.resize(3000); return f; }

static void accepts(Gen& g) {
    std::string key = b64(g.bytes(16)), why; Fields f; bool ok = true; int miss = g.chance(55, 100) ? -1 : (int)g.draw(7);
    auto drop = [&](char const* w) { ok = false; why = w; };
    if (miss == 0) drop("no Origin"); else f.push_back({"Origin", g.oneof<std::string>({"http://localhost", "https://a.b:8080", "null"})});
    if (miss == 1) drop("no Upgrade"); else if (miss == 2) { drop("another Upgrade"); f.push_back({"Upgrade", notWebsocket(g)}); } else f.push_back({"Upgrade", mixCase(g, "websocket")});
    if (miss == 3) drop("no Connection"); else if (miss == 4) { drop("Connection without upgrade"); f.push_back({"Connection", notConnection(g)}); } else f.push_back({"Connection", connectionList(g)});
    if (miss == 5) drop("no key"); else f.push_back({"Sec-WebSocket-Key", key});
    f.push_back({"Sec-WebSocket-Version", "13"}); f.push_back({"Host", "localhost"}); extras(g, f);
    std::string wire = "GET /ws HTTP/1.1\r\n" + fieldLines(g, f) + "\r\n"; std::size_t head = wire.size(); std::vector<Frame> ms; std::size_t n = g.size(4); for (std::size_t i = 0; i < n; ++i) { ms.push_back(message(g, true)); wire += wsf::encode(ms.back()); }
    bool close = g.boolean(); if (close) { Frame c; c.op = 8; c.masked = true; c.key = wsf::key(g); wire += wsf::encode(c); }
    auto marks = nt::crlfs(wire); marks.push_back(head); auto frags = g.chance(30, 100) ? std::vector<std::string>{wire} : nt::split(g, wire, marks); bool together = false; { std::size_t p = 0; for (auto& x : frags) { if (p < head && p + x.size() > head) together = true; p += x.size(); } }
    g.describe((ok ? "valid request" : why) + ", " + std::to_string(n) + " messages, " + std::to_string(frags.size()) + " pieces" + (together ? ", frames in the same piece as the head" : "") + "\n" + wire.substr(0, head)); g.nontrivial(!ok || (together && n)); g.label(ok ? "valid" : why); if (together && n) g.label("frames with the head");
    bool accepted = false, refused = false; std::vector<std::pair<int, std::string>> got; std::size_t handler = 0;
    Router<HttpIO> r; r.addEndpoint<GET>("/ws", [&](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> coroutine::Task<> {
        ++handler; container::Uninitialized<WebSocketServer<HttpIO>> ws; try { ws.set(co_await WebSocketFactory<HttpIO>{req, res}.accept()); accepted = true; } catch (std::exception const&) { refused = true; }
        if (!accepted) co_return;
        try { for (;;) { auto p = co_await ws.get().recv<true, Long>(OpCode::Text, OpCode::Binary); got.push_back({(int)p.opCode, p.content}); co_await ws.get().send(p.opCode, p.content); } } catch (std::exception const&) {}
        throw std::runtime_error{"done"};                     // ends the connection
    });
    nt::Duplex d; std::atomic_bool isRun{true}; d.feed(frags, nt::End::HalfClose); d.collect(); nt::serve<Long>(d, r, isRun); auto const& out = d.received();
    PBT_CHECK(handler >= 1, "the handler did not run"); std::size_t p = 0; nt::Msg m; try { m = nt::readMsg(out, p, true, ok); } catch (nt::Bad const& b) { PBT_FAIL("the reply is no well-formed response (" << b.why << "): " << quote(out, 200)); }
    if (!ok) { PBT_CHECK(!accepted && refused, "a request with " << why << " was accepted"); PBT_CHECK(m.start.substr(0, 13) != "HTTP/1.1 101 ", "a request with " << why << " was answered with 101"); PBT_CHECK(got.empty(), "messages delivered"); return; }
    PBT_CHECK(accepted && !refused, "a valid request was refused: " << m.start); PBT_EQ(m.start.substr(0, 13), std::string("HTTP/1.1 101 "), "status line"); PBT_EQ(m.head["sec-websocket-accept"], wsf::acceptKey(key), "accept key"); PBT_EQ(nt::low(m.head["upgrade"]), std::string("websocket"), "Upgrade"); PBT_CHECK(nt::low(m.head["connection"]).find("upgrade") != std::string::npos, "Connection: " << m.head["connection"]);
    for (auto& x : ms) { auto fr = wsf::decode(out, p); PBT_CHECK(fr, "message " << wsf::show(x) << " was not received after the handshake (" << got.size() << " were)"); PBT_EQ(fr->f.op, x.op, "type of the message received"); PBT_CHECK(fr->f.data == x.data, "message is " << quote(fr->f.data, 80) << " but " << quote(x.data, 80) << " was sent"); }
    if (close) { auto fr = wsf::decode(out, p); PBT_CHECK(fr && fr->f.op == 8, "the close frame was not answered"); } PBT_EQ(p, out.size(), "bytes after the expected ones: " << quote(out.substr(p), 100)); PBT_EQ(got.size(), ms.size(), "messages");
}
static void connects(Gen& g) {
    std::string path = g.oneof<std::string>({"/", "/ws", "/a/b?x=1&y=%20", "/ws/long-" + g.strUpTo("abc/", 20)}); std::string host = g.oneof<std::string>({"localhost", "127.0.0.1:28205", "example.org:80"}); HeaderHashMap hs; std::map<std::string, std::string> own; for (std::size_t i = 0, n = g.size(3); i < n; ++i) { auto v = nt::fieldValue(g); own["x-" + std::to_string(i)] = v; hs.insert({"X-" + std::to_string(i), v}); }
    int bad = g.chance(50, 100) ? -1 : (int)g.draw(9); std::string why = "valid reply"; std::vector<Frame> ms; std::size_t n = g.size(4); for (std::size_t i = 0; i < n; ++i) ms.push_back(message(g, false));
    std::string status = "101 Switching Protocols"; Fields f; bool accept = true, up = true, conn = true; std::string upV = mixCase(g, "websocket"), connV = connectionList(g); int acceptKind = 0; double cut = 1; bool body = false;
    switch (bad) {
    case -1: break;
    case 0: status = g.oneof<std::string>({"200 OK", "400 Bad Request", "301 Moved", "426 Upgrade Required", "100 Continue", "102 Processing", "201 Created"}); body = true; why = "status " + status; break;
    case 1: accept = false; why = "no accept key"; break;
    case 2: acceptKind = 1; why = "accept key of another key"; break;
    case 3: acceptKind = 2 + (int)g.draw(4); why = "altered accept key"; break;
    case 4: up = false; why = "no Upgrade"; break;
    case 5: upV = notWebsocket(g); why = "another Upgrade"; break;
    case 6: conn = false; why = "no Connection"; break;
    case 7: connV = notConnection(g); why = "Connection without upgrade"; break;
    default: cut = (double)g.draw(1000) / 1000; why = "reply cut short"; break;
    }
    if (up) f.push_back({"Upgrade", upV}); if (conn) f.push_back({"Connection", connV}); if (accept) f.push_back({"Sec-WebSocket-Accept", "@"}); if (body) f.push_back({"Content-Length", "0"}); extras(g, f);
    std::string reply = "HTTP/1.1 " + status + "\r\n" + fieldLines(g, f) + "\r\n"; std::size_t at = reply.find("@"); if (!accept) at = reply.npos; else { at = nt::low(reply).find("sec-websocket-accept"); at = reply.find('@', at); }
    std::string tail; for (auto& x : ms) tail += wsf::encode(x); std::string dummy = reply + std::string(27, '-') + tail; auto marks = nt::crlfs(dummy); marks.push_back(reply.size() + 27); auto shape = g.chance(30, 100) ? std::vector<std::string>{dummy} : nt::split(g, dummy, marks); std::size_t lenCut = cut < 1 ? (std::size_t)(cut * (double)(reply.size() + 27)) : 0; int alter = (int)g.draw(20);
    g.describe(why + ", path " + path + ", " + std::to_string(n) + " messages, " + std::to_string(shape.size()) + " pieces\n" + reply); g.nontrivial(bad >= 0 || n > 0); g.label(why.substr(0, 6) == "status" ? "status" : why);
    nt::Duplex d; std::string request, problem, key;
    std::thread peer([&] {
        while (request.find("\r\n\r\n") == request.npos) { pollfd p{d.peer, POLLIN, 0}; if (::poll(&p, 1, 10000) <= 0) { problem = "the request never ended"; ::shutdown(d.peer, SHUT_RDWR); return; } char b[4096]; auto k = ::recv(d.peer, b, sizeof b, MSG_DONTWAIT); if (k > 0) request.append(b, (std::size_t)k); else if (k == 0) { problem = "closed before the request ended"; return; } }
        try { std::size_t p = 0; auto m = nt::readMsg(request, p, false); key = m.head["sec-websocket-key"];
            if (p != request.size()) problem = "bytes after the request";
            if (m.start != "GET " + path + " HTTP/1.1") problem = "request line " + quote(m.start);
            if (nt::low(m.head["upgrade"]) != "websocket" || nt::low(m.head["connection"]).find("upgrade") == std::string::npos || m.head["sec-websocket-version"] != "13") problem = "upgrade fields";
            if (m.head["host"] != host) problem = "Host " + quote(m.head["host"]); if (m.head["origin"] != "http://" + host) problem = "Origin " + quote(m.head["origin"]);
            for (auto& [k, v] : own) if (m.head[k] != v) problem = "field " + k + " is " + quote(m.head[k]) + " instead of " + quote(v);
            if (key.size() != 24 || key.substr(22) != "==") problem = "key " + quote(key);
        } catch (nt::Bad const& b) { problem = b.why; }
        std::string a = wsf::acceptKey(acceptKind == 1 ? "dGhlIHNhbXBsZSBub25jZQ==" : key);
        if (acceptKind == 2) { auto i = (std::size_t)alter; for (std::size_t k = 0; k < 27 && !std::isalpha((unsigned char)a[i % 27]); ++k) ++i; a[i % 27] = (char)(a[i % 27] ^ 32); } else if (acceptKind == 3) a = a.substr(0, (std::size_t)alter); else if (acceptKind == 4) a += "A"; else if (acceptKind == 5) a[(std::size_t)alter] = a[(std::size_t)alter] == 'A' ? 'B' : 'A';
        std::string all = reply; if (at != all.npos) all.replace(at, 1, a); if (cut < 1) all.resize(std::min(lenCut, all.size() - 1)); else all += tail;
        std::size_t p = 0; for (auto& s : shape) { auto x = all.substr(p, s.size()); p += x.size(); if (!x.empty() && !d.put(x, true)) return; if (p >= all.size()) break; } if (p < all.size()) d.put(all.substr(p), true); d.finish(nt::End::HalfClose);
    });
    coroutine::EventLoop loop; HttpIO io{d.lib, loop}; bool connected = false, refused = false; std::string what; std::vector<std::pair<int, std::string>> got;
    auto task = [&]() -> coroutine::Task<> {
        container::Uninitialized<WebSocketClient<HttpIO>> ws; try { ws.set(co_await WebSocketFactory<HttpIO>::connect<Long>("ws://" + host + path, io, hs)); connected = true; } catch (std::exception const& e) { refused = true; what = e.what(); co_return; }
        try { for (;;) { auto p = co_await ws.get().recv<true, Long>(OpCode::Text, OpCode::Binary); got.push_back({(int)p.opCode, p.content}); } } catch (std::exception const& e) { what = e.what(); }
    };
    loop.sync(task()); peer.join();
    PBT_CHECK(problem.empty(), "the request: " << problem << "\n" << request);
    if (bad >= 0) { PBT_CHECK(refused && !connected, "a reply with " << why << " was accepted"); return; }
    PBT_CHECK(connected, "a valid reply was refused: " << what); PBT_CHECK(got.size() == ms.size(), got.size() << " of " << ms.size() << " messages were received after the handshake, then " << what);
    for (std::size_t i = 0; i < ms.size(); ++i) { PBT_EQ(got[i].first, ms[i].op, "type of message " << i); PBT_CHECK(got[i].second == ms[i].data, "message " << i << " is " << quote(got[i].second, 80) << " but " << quote(ms[i].data, 80) << " was sent"); }
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "N14", .rule = "an incomplete or altered handshake, or frames sent together with it",
        .assumptions = {"the accept key is recomputed with OpenSSL's SHA-1 and Base64", "AF_UNIX socket pairs stand for the network"}, .quickCapS = 60},
        {{"accepts", accepts, 60000, 2000000, 20}, {"connects", connects, 60000, 2000000, 25}});
}

// technique: coverage-guided fuzzing of a live server connection (random bytes, and generated conversations mutated byte-wise and field-wise, cut and fragmented), with oracles on termination, sanitizers, which handlers may run, and service to other connections
// opt: -O1
#include <common/ws.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using namespace std::string_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;
struct Call { std::string method, path; };
static std::vector<Call> gCalls; static Call const* gGood = nullptr;
static std::string file() { return pbt::scratch() + "/n05.dat"; }
static constexpr std::size_t kFile = 50000;
static Router<HttpIO>& routes() {
    static auto* r = [] {
        auto* r = new Router<HttpIO>;
        auto note = [](Req& q) { gCalls.push_back({std::string(q.getReqType()), std::string(q.getReqPath())}); };
        r->addEndpoint<POST, GET, PUT>("/echo", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); auto b = co_await q.parseBody<Long>(); co_await s.setStatusAndContent(Status::CODE_200, b).sendRes(); });
        r->addEndpoint<POST, GET>("/lazy", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); co_await s.setStatusAndContent(Status::CODE_200, "lazy").sendRes(); });
        r->addEndpoint<POST, GET>("/save", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); co_await q.saveToFile<Long>(pbt::scratch() + "/n05.up"); co_await s.setStatusAndContent(Status::CODE_200, "saved").sendRes(); });
        r->addEndpoint<POST, GET>("/catch", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); std::string b; try { b = co_await q.parseBody<Long>(); } catch (std::exception const&) { b = "bad"; } co_await s.setStatusAndContent(Status::CODE_200, b).sendRes(); });
        r->addEndpoint<GET>("/query", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); std::string o; for (auto& [k, v] : q.getParseQueryParameters()) o += k + "=" + v + ";"; for (auto& [k, v] : q.getHeaders()) o += std::to_string(k.size() + v.size()); o += q.getPureReqPath(); o += q.getProtocolVersion(); co_await s.setStatusAndContent(Status::CODE_200, o).sendRes(); });
        r->addEndpoint<GET, POST>("/p/{a}/{b}", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); long long n = 0; double d = 0; try { n = q.getPathParam(0).to<long long>(); d = q.getPathParam(1).to<double>(); } catch (std::exception const&) {} co_await s.setStatusAndContent(Status::CODE_200, std::to_string(n) + (d > 0 ? "+" : "-")).sendRes(); });
        r->addEndpoint<GET>("/w/**", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); co_await s.setStatusAndContent(Status::CODE_200, std::string(q.getUniversalWildcardPath())).sendRes(); });
        r->addEndpoint<GET, HEAD>("/range", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); co_await s.useRangeTransferFile(q.getRangeRequestView(), file()); });
        r->addEndpoint<GET>("/file", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); co_await s.useChunkedEncodingTransferFile(file()); });
        r->addEndpoint<GET, POST>("/throw", [=](Req& q, Res&) -> coroutine::Task<> { note(q); throw std::runtime_error{"handler"}; co_return; });
        r->addEndpoint<GET>("/ws", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); auto ws = co_await WebSocketFactory<HttpIO>{q, s}.accept(); for (;;) { auto p = co_await ws.recv<true, Long>(OpCode::Text, OpCode::Binary); co_await ws.send(p.opCode, p.content); } });
        r->addEndpoint<GET>("/wsjson", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); auto ws = co_await WebSocketFactory<HttpIO>{q, s}.accept(); for (;;) { auto t = co_await ws.recvText(); co_await ws.sendText(t); } });
        r->addEndpoint<GET>("/sse", [=](Req& q, Res& s) -> coroutine::Task<> { note(q); auto st = co_await s.makeSseStream(); SseEvent e; e.data = "x"; co_await st.push(e); throw std::runtime_error{"end of stream"}; });
        r->setErrorEndpointFunc([=](Req& q, Res& s) -> coroutine::Task<> { note(q); co_await s.setStatusAndContent(Status::CODE_404, "none").sendRes(); });
        return r; }();
    return *r;
}
static std::string number(Gen& g) { return g.oneof<std::string>({"0", "-1", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "4294967296", "ffffffffffffffff", "fffffffffffffff0", "10000000000000000", "7fffffffffffffff", "+1", " 5", "5 ", "0x10", "1e3", "", "1,1", "00000000000000000000000000000000005", "65536", "-9223372036854775808", "٣"}); }
static std::string chunks(Gen& g, std::string const& b, bool valid) { std::string w; std::size_t p = 0; while (p < b.size()) { auto n = 1 + g.draw(b.size() - p); char h[40]; snprintf(h, sizeof h, g.boolean() ? "%zx" : "%04zX", n); w += (valid || g.chance(95, 100) ? std::string(h) : number(g)) + (g.chance(10, 100) ? ";ext=1" : "") + "\r\n" + b.substr(p, n) + "\r\n"; p += n; } return w + (valid || g.chance(95, 100) ? "0" : number(g)) + "\r\n" + (g.chance(10, 100) ? "Trailer: x\r\n" : "") + "\r\n"; }
struct Piece { std::string head, body; bool needsBody, stops; };        // stops: nothing is served after it
static Piece request(Gen& g, bool valid) {
    Piece p; std::string target, method = "GET", hdr; bool hasBody = false; p.needsBody = p.stops = false; int k = (int)g.draw(14);
    switch (k) {
    case 0: target = "/echo"; method = g.oneof<std::string>({"POST", "POST", "PUT", "GET"}); hasBody = true; p.needsBody = true; break;
    case 1: target = "/lazy"; method = "POST"; hasBody = true; break;
    case 2: target = "/save"; method = "POST"; hasBody = true; p.needsBody = true; break;
    case 3: target = "/catch"; method = "POST"; hasBody = true; break;
    case 4: target = "/query?" + g.strUpTo("ab=&%20+?#41gZ", 40); break;
    case 5: target = "/p/" + (g.boolean() ? number(g) : g.strUpTo("019.-ae%", 12, 1)) + "/" + g.strUpTo("0123.e-xn", 10, 1); for (auto& c : target) if (c == ' ') c = '_'; break;
    case 6: target = "/w/" + g.strUpTo("ab/%.*", 30); break;
    case 7: target = "/range"; if (g.chance(20, 100)) method = "HEAD"; if (g.chance(90, 100)) hdr = "Range: bytes=" + [&] { std::string s; std::size_t n = 1 + g.size(6); for (std::size_t i = 0; i < n; ++i) { if (i) s += ","; switch (g.draw(5)) { case 0: s += std::to_string(g.draw(kFile)) + "-" + std::to_string(g.draw(kFile + 100)); break; case 1: s += std::to_string(g.draw(kFile)) + "-"; break; case 2: s += "-" + std::to_string(g.draw(kFile + 100)); break; case 3: s += number(g) + "-" + number(g); break; default: s += g.strUpTo("0123456789-, =x", 12); } } return s; }() + "\r\n"; break;
    case 8: target = "/file"; break;
    case 9: target = "/throw"; p.stops = true; break;
    case 10: case 11: {
        target = k == 10 ? "/ws" : "/wsjson"; p.stops = true; hdr = "Origin: http://h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n";
        for (std::size_t i = 0, n = g.size(6); i < n; ++i) { wsf::Frame f; f.op = g.oneof({1, 1, 2, 8, 9, 10, 0, 3, 15}); f.fin = g.chance(80, 100); f.masked = g.chance(90, 100); f.key = wsf::key(g); f.data = wsf::payload(g, 20000); std::optional<std::uint64_t> lie; if (g.chance(10, 100)) lie = g.oneof<std::uint64_t>({~0ull, 1ull << 63, 1ull << 40, 1u << 31, 65535, 127}); p.body += wsf::encode(f, lie, lie && g.boolean()); } break; }
    case 12: target = "/sse"; p.stops = true; break;
    case 13: target = g.oneof<std::string>({"/none", "/", "//", "*", "/echo/x", "http://h/echo", "/%00"}); method = g.oneof<std::string>({"GET", "POST", "OPTIONS", "get", "X"}); break;
    }
    p.head = method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n" + hdr; std::size_t n = g.size(4); for (std::size_t i = 0; i < n; ++i) p.head += "X-" + std::to_string(i) + ": " + nt::fieldValue(g) + "\r\n";
    if (!p.stops && g.chance(5, 100)) { p.head += "Connection: close\r\n"; p.stops = true; }
    if (hasBody) {
        std::string b = g.chance(8, 100) ? g.str("abcdefgh\r\n", g.sizeNear({16384, 32768}, 60000)) : g.blob(g.size(200));
        if (g.boolean()) { p.head += "Content-Length: " + (valid || g.chance(80, 100) ? std::to_string(b.size()) : number(g)) + "\r\n"; p.body = b; }
        else { p.head += "Transfer-Encoding: chunked\r\n"; p.body = chunks(g, b, valid); }
        if (!valid && g.chance(8, 100)) p.head += g.oneof<std::string>({"Content-Length: 3\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: gzip\r\n"});
    } 
    if (p.body.empty()) p.needsBody = false;
    p.head += "\r\n"; return p;
}
static void mutate(Gen& g, std::string& w) {
    std::size_t n = 1 + g.size(6);
    for (std::size_t i = 0; i < n && !w.empty(); ++i) {
        auto at = g.draw(w.size()); if (g.chance(50, 100)) { auto m = nt::crlfs(w, 200); if (!m.empty()) at = std::min(w.size() - 1, g.pick(m) + g.draw(5)); }
        switch (g.draw(12)) {
        case 0: w[at] = (char)g.draw(256); break;
        case 1: w[at] = (char)(w[at] ^ (1 << g.draw(8))); break;
        case 2: w.erase(at, 1 + g.size(10)); break;
        case 3: w.insert(at, g.oneof<std::string>({"\r\n", "\r\n\r\n", "\n", "\r", " ", ":", "\0"s, ",", "=", "&", "%", "%4", "?", "/", "-", "\x80", "\t", "HTTP/1.1", "\n\n"})); break;
        case 4: w.insert(at, w.substr(g.draw(w.size()), g.size(60))); break;
        case 5: { auto d = w.find_first_of("0123456789", at); if (d == w.npos) break; auto e = w.find_first_not_of("0123456789", d); w.replace(d, (e == w.npos ? w.size() : e) - d, number(g)); break; }
        case 6: w.insert(at, g.str("A", 1 + g.size(100))); break;
        case 7: w.insert(at, std::string(g.sizeNear({8192, 16384, 65536}, 70000), g.oneof({'A', ' ', '\r', '\n', ':', '/', '0', '\0'}))); break;
        case 8: w.resize(at); break;
        case 9: { auto e = w.find("\r\n", at); if (e != w.npos) w.erase(at, e - at); break; }
        case 10: { auto e = w.find("\r\n", at), f = e == w.npos ? e : w.find("\r\n", e + 2); if (f != w.npos) w.insert(e, w.substr(e, f - e)); break; }      // repeats a line
        case 11: w.insert(at, g.bytes(1 + g.size(20))); break;
        }
    }
}
static void checkOther(std::string const& out, std::string const& body, char const* when) {
    std::size_t p = 0; try { auto m = nt::readMsg(out, p, true); PBT_CHECK(m.start == "HTTP/1.1 200 OK" && m.body == body && p == out.size(), "a well-behaved connection " << when << " was answered by " << quote(out, 200) << " instead of its " << body.size() << " bytes"); } catch (nt::Bad const& b) { PBT_FAIL("a well-behaved connection " << when << " got no well-formed response (" << b.why << "): " << quote(out, 200)); }
}
// serves the bytes, next to a well-behaved connection on the same loop and before another one; the handlers that ran are left in `calls`
static std::string run(Gen& g, std::string const& wire, std::vector<std::string> const& frags, nt::End end, std::vector<Call>& calls) {
    bool first = g.boolean(); std::string body = "b" + g.strUpTo("xyz", 30); std::string good = "POST /echo HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; (void)wire;
    nt::Duplex d, o; d.feed(frags, end); d.collect(); o.feed({good.substr(0, 20), good.substr(20)}, nt::End::HalfClose); std::atomic_bool isRun{true}; gCalls.clear(); std::string out;
    try { nt::Quiet q; coroutine::EventLoop loop; int a = d.releaseLib(), b = o.releaseLib();
        auto start = [&](int f) { ConnectionHandler<HttpIO>::start<Long>(f, isRun, routes(), loop).detach(); };
        if (first) { start(b); start(a); } else { start(a); start(b); }
        loop.run(); } catch (std::exception const& e) { PBT_FAIL("an exception escaped to the server's loop: " << e.what()); } catch (pbt::Failure&) { throw; } catch (...) { PBT_FAIL("an exception escaped to the server's loop"); }
    out = d.received(); checkOther(o.received(), body, "beside it"); PBT_CHECK(d.peerEof, "the server kept the connection open after its end");
    calls = gCalls; for (std::size_t i = 0; i < calls.size(); ++i) if (calls[i].method == "POST" && calls[i].path == "/echo") { calls.erase(calls.begin() + (long)i); goto found; } PBT_FAIL("the other connection's handler did not run"); found:
    { nt::Duplex n; n.feed({good}, nt::End::HalfClose); nt::serve<Long>(n, routes(), isRun); checkOther(n.received(), body, "afterwards"); }
    return out;
}
static void prepare() { static bool done = [] { std::string s; for (std::size_t i = 0; i < kFile; ++i) s += (char)(i * 7); int f = ::open(file().c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (::write(f, s.data(), s.size()) != (ssize_t)s.size()) _exit(98); ::close(f); return true; }(); (void)done; }
// a handler may run only for a head that is in the bytes: its method and target, followed later by an empty line
static void justified(std::string const& wire, std::vector<Call> const& calls) {
    std::size_t ends = 0; for (std::size_t p = 0; (p = wire.find("\r\n\r\n", p)) != wire.npos; p += 2) ++ends;
    PBT_CHECK(calls.size() <= ends, calls.size() << " handlers ran but the bytes contain only " << ends << " ends of a head: " << quote(wire, 400));
    for (auto& c : calls) { auto p = wire.find(c.method); p = p == wire.npos ? p : wire.find(c.path, p + c.method.size()); PBT_CHECK(p != wire.npos && wire.find("\r\n\r\n", p) != wire.npos, "a handler ran for " << quote(c.method) << " " << quote(c.path, 100) << " but no such head is complete in " << quote(wire, 400)); }
}
static void garbage(Gen& g) {
    prepare(); std::string wire; std::size_t n = 1 + g.size(3); bool noise = g.chance(15, 100);
    if (noise) wire = g.chance(50, 100) ? g.bytes(g.size(300)) : g.strUpTo("GET /\r\n: HTP1.1ab", 200);
    else { for (std::size_t i = 0; i < n; ++i) { auto p = request(g, false); wire += p.head + p.body; } mutate(g, wire); }
    auto frags = nt::split(g, wire, nt::crlfs(wire)); auto end = g.oneof({nt::End::HalfClose, nt::End::HalfClose, nt::End::Close});
    g.describe(quote(wire, 300) + " in " + std::to_string(frags.size()) + " pieces"); g.nontrivial(wire.size() > 20); g.label(noise ? "noise" : "mutated");
    std::vector<Call> calls; run(g, wire, frags, end, calls); justified(wire, calls); g.label(std::to_string(std::min<std::size_t>(calls.size(), 4)) + " handlers");
}
static void cut(Gen& g) {
    prepare(); std::string wire; std::size_t n = 1 + g.size(4); std::vector<Piece> ps; std::vector<std::size_t> marks; for (std::size_t i = 0; i < n; ++i) { ps.push_back(request(g, true)); wire += ps.back().head; marks.push_back(wire.size()); wire += ps.back().body; marks.push_back(wire.size()); }
    std::size_t at = g.chance(60, 100) ? std::min(wire.size(), (std::size_t)std::max<long>(0, (long)g.pick(marks) - 3 + (long)g.draw(6))) : g.draw(wire.size() + 1); std::string whole = wire; wire.resize(at);
    std::size_t want = 0, p = 0; std::vector<std::string> lines; for (auto& r : ps) { p += r.head.size(); if (p > at) break; ++want; lines.push_back(r.head.substr(0, r.head.find(" HTTP/"))); p += r.body.size(); if (p > at || r.stops) break; }
    auto frags = nt::split(g, wire, marks); g.describe(quote(wire, 300) + " cut at " + std::to_string(at) + " of " + std::to_string(whole.size())); g.nontrivial(at < whole.size() && at > 20); g.label(std::to_string(want) + " heads");
    std::vector<Call> calls; run(g, wire, frags, nt::End::HalfClose, calls);
    std::vector<std::string> got; for (auto& c : calls) got.push_back(c.method + " " + c.path); PBT_EQ(got.size(), want, "handlers that ran for " << quote(wire, 300)); 
    std::multiset<std::string> a(got.begin(), got.end()), b(lines.begin(), lines.end()); PBT_CHECK(a == b, "handlers ran for other requests than those sent");
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N05",
        .rule = "conversations with every kind of endpoint (body echo, ignored body, upload, query and path parameters, wildcard, file ranges, chunked file, WebSocket, event stream, throwing handler) mutated byte-wise, line-wise and in their numbers, or cut, or plain noise, in generated fragmentations, beside a well-behaved connection on the same loop and before another one; non-trivial: more than 20 bytes, cut before the end",
        .assumptions = {"the peer ends its stream; stalled peers are N22's subject"}},
        {{"garbage", garbage, 30000, 1500000, 60, false, 70}, {"cut", cut, 12000, 500000, 60}});
}

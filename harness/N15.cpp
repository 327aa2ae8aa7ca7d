// technique: property-based testing: generated event sequences written by the library and read back by the library and by an independent reader, and generated streams of other servers, in generated fragmentations
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s);

static std::string word(Gen& g) { return g.oneof<std::string>({"a", "message", "x y", " lead", "trail ", ":", "a:b", "data:", "data: x", "id", "0", "我是", "\t", "event:q", ": c"}); }
static std::string lineText(Gen& g) { std::string s; switch (g.draw(5)) { case 0: break; case 1: s = word(g); break; case 2: s = g.strUpTo("ab: \t?", 12); break; case 3: for (std::size_t i = 0, n = g.size(20); i < n; ++i) { char c = (char)g.draw(256); if (c != '\n' && c != '\r' && c) s += c; } break; case 4: s = std::string(g.chance(4, 100) ? g.sizeNear({16384, 16380, 32768}, 60000) : g.draw(200), 'x') + word(g); break; } return s; }
static std::string oneLine(Gen& g) { auto s = lineText(g); return s.empty() ? word(g) : s; }
static SseEvent event(Gen& g) {
    SseEvent e; std::size_t lines = g.chance(20, 100) ? 0 : 1 + g.size(4); for (std::size_t i = 0; i < lines; ++i) { if (i) e.data += '\n'; e.data += lineText(g); }
    if (g.boolean()) e.event = oneLine(g); if (g.boolean()) e.id = lineText(g); if (g.chance(30, 100)) e.retry = std::chrono::milliseconds(g.chance(20, 100) ? (long long)(g.draw(0) >> 1) : (long long)g.draw(100000));
    if (!e) e.data = "d"; return e;
}
static std::string show(SseEvent const& e) { return "{data=" + quote(e.data, 60) + " event=" + quote(e.event, 40) + (e.id ? " id=" + quote(*e.id, 40) : "") + (e.retry ? " retry=" + std::to_string(e.retry->count()) : "") + "}"; }
static bool same(SseEvent const& a, SseEvent const& b) { return a.data == b.data && a.event == b.event && a.id == b.id && a.retry == b.retry; }
// reads until the stream ends; the last call fails because the peer closes
static std::vector<SseEvent> readAll(nt::Duplex& d, std::size_t stopAfter, bool& failed) {
    coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpResponse<HttpIO> res{io}; std::vector<SseEvent> got; failed = false;
    PBT_CHECK(loop.sync(res.parserResHead<Long>()), "head"); 
    auto run = [&]() -> coroutine::Task<> { auto gen = res.parserSseStrem<Long>(); while (got.size() < stopAfter) { auto e = co_await gen; got.push_back(e); } };
    try { loop.sync(run()); } catch (std::exception const&) { failed = true; } return got;
}
// an independent reader of the event-stream format
static std::vector<SseEvent> reference(std::string_view s) {
    std::vector<SseEvent> r; SseEvent e; bool any = false, hasData = false; std::size_t p = 0;
    for (;;) {
        auto q = s.find('\n', p); if (q == s.npos) return r; auto l = s.substr(p, q - p); p = q + 1; if (!l.empty() && l.back() == '\r') l.remove_suffix(1);
        if (l.empty()) { if (any || !e.event.empty()) r.push_back(e); e = {}; any = hasData = false; continue; }
        auto c = l.find(':'); std::string k(l.substr(0, c)), v = c == l.npos ? "" : std::string(l.substr(c + 1)); if (!v.empty() && v[0] == ' ') v.erase(0, 1);
        if (k == "data") { if (hasData) e.data += '\n'; e.data += v; hasData = any = true; } else if (k == "event") { e.event = v; } else if (k == "id") { e.id = v; any = true; } else if (k == "retry") { e.retry = std::chrono::milliseconds(std::stoull(v)); any = true; }
    }
}
static void compare(std::vector<SseEvent> const& got, std::vector<SseEvent> const& want, char const* who) {
    for (std::size_t i = 0; i < std::min(got.size(), want.size()); ++i) PBT_CHECK(same(got[i], want[i]), who << ": event " << i << " is " << show(got[i]) << " but " << show(want[i]) << " was sent");
    PBT_CHECK(got.size() == want.size(), who << ": " << got.size() << " events of " << want.size() << (got.size() < want.size() ? ", missing " + show(want[got.size()]) : ", extra " + show(got[want.size()])));
}
static void roundtrip(Gen& g) {
    std::size_t n = 1 + g.size(8); std::vector<SseEvent> es; std::string wire, desc; bool multi = false;
    {   nt::Duplex d; coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpResponse<HttpIO> res{io}; if (g.chance(30, 100)) res.addHeader("X-A", "b"); auto st = loop.sync(res.makeSseStream());
        if (g.chance(10, 100)) loop.sync(st.ping());
        for (std::size_t i = 0; i < n; ++i) { es.push_back(event(g)); multi |= es.back().data.find('\n') != std::string::npos; desc += show(es.back()) + " "; loop.sync(st.push(es.back())); if (g.chance(20, 100)) loop.sync(st.ping()); }
        wire = d.received(); }
    auto hd = wire.find("\r\n\r\n"); PBT_CHECK(hd != wire.npos, "head"); auto body = wire.substr(hd + 4); compare(reference(body), es, "independent reader");
    bool cut = g.chance(15, 100); std::size_t whole = es.size(); if (cut) { std::size_t at = g.draw(body.size()); body = body.substr(0, at); whole = 0; std::size_t k = reference(body).size(); whole = k; es.resize(k); wire = wire.substr(0, hd + 4) + body; }
    std::vector<std::size_t> marks; for (std::size_t p = hd; (p = wire.find('\n', p)) != wire.npos && marks.size() < 80; ++p) marks.push_back(p + 1);
    auto frags = g.chance(10, 100) ? std::vector<std::string>{wire} : nt::split(g, wire, marks); g.describe(desc + std::to_string(frags.size()) + " pieces" + (cut ? ", cut" : "")); g.nontrivial(n > 1 && frags.size() > 1); g.label(multi ? "multi-line" : "single-line");
    nt::Duplex d; bool open = !cut && g.boolean(); d.feed(frags, open ? nt::End::Open : nt::End::HalfClose); bool failed; auto got = readAll(d, open ? es.size() : ~0ull, failed); compare(got, es, "reader"); if (!open) PBT_CHECK(failed, "the end of the stream was not reported");
}
static void foreign(Gen& g) {
    std::string body; std::size_t n = 1 + g.size(12); auto eol = [&] { return g.chance(30, 100) ? "\r\n" : "\n"; };
    for (std::size_t i = 0; i < n; ++i) {
        switch (g.draw(8)) {
        case 0: body += "data" + std::string(g.chance(85, 100) ? ":" + std::string(g.boolean() ? " " : "") + lineText(g) : "") + eol(); break;
        case 1: body += "event:" + std::string(g.boolean() ? " " : "") + oneLine(g) + eol(); break;
        case 2: body += "id" + std::string(g.chance(85, 100) ? ":" + std::string(g.boolean() ? " " : "") + lineText(g) : "") + eol(); break;
        case 3: body += "retry:" + std::string(g.boolean() ? " " : "") + std::to_string(g.draw(100000)) + eol(); break;
        case 4: body += ":" + lineText(g) + eol(); break;                                    // comment
        case 5: body += g.oneof<std::string>({"unknown: x", "datax: y", "Data: z", "dat", "eventid:1", " data: x", "ids", "foo:"}) + eol(); break;
        default: body += eol(); if (g.chance(20, 100)) body += eol(); break;
        }
    }
    if (g.chance(80, 100)) body += eol(); auto want = reference(body); auto head = "HTTP/1.1 200 OK\r\nContent-Type: " + g.oneof<std::string>({"text/event-stream", "text/event-stream; charset=utf-8"}) + "\r\n\r\n"; auto wire = head + body;
    std::vector<std::size_t> marks; for (std::size_t p = 0; (p = wire.find('\n', p)) != wire.npos && marks.size() < 80; ++p) marks.push_back(p + 1);
    auto frags = nt::split(g, wire, marks); g.describe(quote(body, 500) + " " + std::to_string(frags.size()) + " pieces"); g.nontrivial(want.size() > 0); g.label(want.size() > 1 ? "several events" : "few");
    nt::Duplex d; d.feed(frags, nt::End::HalfClose); bool failed; auto got = readAll(d, ~0ull, failed); compare(got, want, "reader"); PBT_CHECK(failed, "the end of the stream was not reported");
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N15",
        .rule = "1 to 9 events with any mixture of data lines (also empty, with leading and trailing blanks, colons, any byte but CR, LF and NUL, longer than the receive buffer), names, identifiers and retry times, with pings; or streams of foreign spelling; in any fragmentation, complete or cut; non-trivial: several events in several pieces",
        .assumptions = {"texts contain no CR or NUL, names and identifiers are single lines", "the stream is not sent with chunked coding"}},
        {{"roundtrip", roundtrip, 20000, 800000, 40}, {"foreign", foreign, 20000, 800000, 40}});
}

// technique: property-based testing: generated bodies in generated framings and fragmentations, read into memory or into a file and compared byte for byte; truncation at generated points
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <dirent.h>
#include <fstream>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s);

struct Body { std::string body, head, wire, how; std::vector<std::size_t> marks; };   // wire = framed body without the head
static std::string bodyBytes(Gen& g) {
    std::size_t n = g.chance(80, 100) ? g.size(400) : g.sizeNear({16384, 16384 - 100, 32768, 131072, 1000, 4096}, g.chance(10, 100) ? 300000 : 40000);
    switch (g.draw(4)) { case 0: return g.blob(n); case 1: return std::string(n, 'x'); case 2: { std::string s; while (s.size() < n) s += g.oneof<std::string>({"\r\n", "0\r\n\r\n", "GET / HTTP/1.1\r\n", "\r", "\n", "abc", "5\r\n", ";"}); s.resize(n); return s; } default: { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(i * 31 + i / 251); return s; } }
}
static std::string hex(Gen& g, std::size_t n) { char b[40]; std::snprintf(b, sizeof b, g.boolean() ? "%zx" : "%zX", n); return std::string(g.chance(15, 100) ? g.draw(4) : 0, '0') + b; }
static Body makeBody(Gen& g, std::string body) {
    Body b; b.body = std::move(body); auto const& s = b.body;
    if (g.chance(45, 100)) { b.head = "Content-Length:" + std::string(g.boolean() ? " " : "") + std::to_string(s.size()) + "\r\n"; b.wire = s; b.how = "length"; b.marks = {s.size()}; return b; }
    b.head = g.oneof<std::string>({"Transfer-Encoding: chunked\r\n", "transfer-encoding:chunked\r\n"}); b.how = "chunked"; std::size_t p = 0, k = 0;
    std::size_t style = g.draw(4), step = 1 + g.draw(style == 0 ? 3 : style == 1 ? 40 : 20000);
    while (p < s.size()) {
        std::size_t n = std::min(s.size() - p, style == 3 ? s.size() : ++k > 300 ? s.size() : style == 2 ? 1 + g.draw(std::min<std::size_t>(s.size(), 20000)) : step);
        b.marks.push_back(b.wire.size()); b.wire += hex(g, n) + (g.chance(8, 100) ? g.oneof<std::string>({";x", ";name=val", ";q=\"a b\""}) : "") + "\r\n"; b.marks.push_back(b.wire.size()); b.wire += s.substr(p, n) + "\r\n"; p += n;
    }
    b.marks.push_back(b.wire.size()); b.wire += std::string(1 + (g.chance(10, 100) ? g.draw(3) : 0), '0') + (g.chance(5, 100) ? ";last" : "") + "\r\n";
    if (g.chance(15, 100)) for (std::size_t i = 0, n = 1 + g.draw(2); i < n; ++i) b.wire += "X-Trailer" + std::to_string(i) + ": " + nt::fieldValue(g, 60) + "\r\n";
    b.marks.push_back(b.wire.size()); b.wire += "\r\n"; return b;
}
static int openFds() { int n = 0; DIR* d = ::opendir("/proc/self/fd"); while (::readdir(d)) ++n; ::closedir(d); return n; }
static std::string slurp(std::string const& p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
static std::string headOf(Gen& g, Body const& b) { auto before = g.strUpTo("ab", 3), after = g.strUpTo("ab", 3); return "POST /" + before + " HTTP/1.1\r\nHost: h\r\n" + (before.empty() ? "" : "A: " + before + "\r\n") + b.head + (after.empty() ? "" : "Z: " + after + "\r\n") + "\r\n"; }

static void exact(Gen& g) {
    bool file = g.chance(40, 100); int n = g.chance(75, 100) ? 1 : 2 + (int)g.draw(3);
    std::vector<Body> bs; std::string wire, desc; std::vector<std::size_t> marks;
    for (int i = 0; i < n; ++i) { bs.push_back(makeBody(g, bodyBytes(g))); auto h = headOf(g, bs.back()); wire += h; marks.push_back(wire.size()); for (auto m : bs.back().marks) marks.push_back(wire.size() + m); wire += bs.back().wire; marks.push_back(wire.size()); desc += bs.back().how + " " + std::to_string(bs.back().body.size()) + "B "; }
    std::string extra = g.chance(25, 100) ? g.blob(g.size(60)) : "";
    auto frags = nt::split(g, wire + extra, marks); auto end = extra.empty() && g.chance(50, 100) ? nt::End::HalfClose : nt::End::Open;
    g.describe(desc + (file ? "to file" : "to memory") + ", " + std::to_string(frags.size()) + " pieces: " + quote(wire, 300)); g.nontrivial(bs[0].body.size() > 2 && frags.size() > 1); g.label(bs[0].how + (file ? " file" : " memory"));
    nt::Duplex d; int before = 0; d.feed(frags, end); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpRequest<HttpIO> req{io};
    auto path = pbt::scratch() + "/upload.bin"; if (file) { if (g.boolean()) { std::ofstream f(path, std::ios::binary); f << std::string(g.draw(50), '#'); } else ::unlink(path.c_str()); before = openFds(); }
    for (auto& b : bs) {
        PBT_CHECK(loop.sync(req.parserReqHead<Long>()), "head"); std::string got;
        if (file) { loop.sync(req.saveToFile<Long>(path)); got = slurp(path); } else got = loop.sync(req.parseBody<Long>());
        PBT_CHECK(got.size() == b.body.size(), "got " << got.size() << " of " << b.body.size() << " bytes (" << b.how << "): " << quote(got, 200)); 
        PBT_CHECK(got == b.body, "bytes differ at " << (std::mismatch(got.begin(), got.end(), b.body.begin()).first - got.begin()) << " of " << b.body.size() << " (" << b.how << ")");
        if (&b == &bs[0]) { bool threw = false; try { loop.sync(req.parseBody<Long>()); } catch (std::exception const&) { threw = true; } PBT_CHECK(threw, "a body is delivered only once"); }
        loop.sync(req.clear());
    }
    if (file) PBT_EQ(openFds(), before, "files left open");
}
static void cut(Gen& g) {
    bool file = g.chance(50, 100); auto b = makeBody(g, bodyBytes(g)); auto h = headOf(g, b); if (b.wire.empty()) pbt::discard();
    std::size_t at = g.chance(40, 100) ? b.wire.size() - 1 - g.draw(std::min<std::size_t>(b.wire.size(), 8)) : g.chance(30, 100) && !b.marks.empty() ? std::min(b.wire.size() - 1, g.pick(b.marks) + g.draw(3)) : g.draw(b.wire.size());
    auto wire = h + b.wire.substr(0, at); auto frags = nt::split(g, wire, nt::crlfs(wire));
    auto end = g.oneof({nt::End::HalfClose, nt::End::HalfClose, nt::End::Close});
    g.describe(b.how + " body of " + std::to_string(b.body.size()) + " bytes cut after " + std::to_string(at) + " of " + std::to_string(b.wire.size()) + (file ? " to file" : " to memory")); g.nontrivial(at > 0); g.label(b.how + (file ? " file" : " memory"));
    nt::Duplex d; d.feed(frags, end); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpRequest<HttpIO> req{io}; auto path = pbt::scratch() + "/upload.bin";
    bool threw = false; std::string got; int before = openFds();
    try { if (!loop.sync(req.parserReqHead<Long>())) { PBT_CHECK(end == nt::End::Close, "head"); return; } } catch (std::exception const& e) { PBT_CHECK(end == nt::End::Close, "head: " << e.what()); return; }
    try { if (file) { loop.sync(req.saveToFile<Long>(path)); got = slurp(path); } else got = loop.sync(req.parseBody<Long>()); } catch (std::exception const&) { threw = true; }
    PBT_CHECK(threw, "a body cut after " << at << " of " << b.wire.size() << " framed bytes (" << b.how << ") was delivered as complete: " << quote(got, 200));
    PBT_EQ(openFds(), before, "files left open");
}
// framing that is not valid is refused
static void malformed(Gen& g) {
    auto body = g.strUpTo("abcdef", 20, 3); char hexs[20]; std::snprintf(hexs, sizeof hexs, "%zx", body.size()); std::string hx = hexs, head = "Transfer-Encoding: chunked\r\n", wire; auto len = std::to_string(body.size());
    switch (g.draw(11)) {
    case 0: wire = "g" + hx + "\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 1: wire = "\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 2: wire = "-" + hx + "\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 3: wire = hx + "\r\n" + body + "xx0\r\n\r\n"; break;                      // data longer than declared
    case 4: wire = "fffffffffffffffff\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 5: wire = hx + "z\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 6: wire = "0x" + hx + "\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 7: head = "Content-Length: " + g.oneof<std::string>({"-", "+", "0x", "1e", ""}) + g.oneof<std::string>({"", "x"}) + (g.boolean() ? "" : "") + "\r\n"; wire = body; break;
    case 8: head = "Content-Length: -" + len + "\r\n"; wire = body; break;
    case 9: head = "Content-Length: " + len + g.oneof<std::string>({"x", " 1", ",", ";", ".0"}) + "\r\n"; wire = body; break;
    case 10: head = "Content-Length: 1" + g.oneof<std::string>({"8446744073709551616", "00000000000000000000000"}) + "\r\n"; wire = body; break;
    }
    auto all = "POST / HTTP/1.1\r\n" + head + "\r\n" + wire; auto frags = nt::split(g, all, nt::crlfs(all)); bool file = g.boolean();
    g.describe(quote(all)); g.nontrivial();
    nt::Duplex d; d.feed(frags, nt::End::HalfClose); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpRequest<HttpIO> req{io}; std::string got; bool threw = false;
    try { PBT_CHECK(loop.sync(req.parserReqHead<Long>()), "head"); if (file) loop.sync(req.saveToFile<Long>(pbt::scratch() + "/upload.bin")); else got = loop.sync(req.parseBody<Long>()); } catch (std::exception const&) { threw = true; }
    PBT_CHECK(threw, "malformed framing was accepted, giving " << quote(got));
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N02",
        .rule = "bodies of 0 bytes to beyond the file buffer, also full of delimiter-like text, in Content-Length or chunked framing with any partition, extensions and trailers, followed by more requests or other bytes, in any fragmentation; non-trivial: a body of several bytes in several fragments / cut inside the body",
        .assumptions = {"a request carries one kind of framing"}},
        {{"exact", exact, 30000, 1000000, 40}, {"cut", cut, 30000, 1000000, 40}, {"malformed", malformed, 10000, 100000, 40}});
}

// technique: property-based testing: generated responses delivered through a socket in generated fragments, compared with the parts they were built from; truncation at generated points
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s);

struct Res { std::string version, status, reason, body, wire, how; std::vector<std::pair<std::string, std::string>> fields; std::size_t headEnd = 0; std::vector<std::size_t> marks; };
static std::string bodyBytes(Gen& g) {
    std::size_t n = g.chance(80, 100) ? g.size(400) : g.sizeNear({16384, 16384 - 100, 32768, 131072, 1000}, g.chance(10, 100) ? 300000 : 40000);
    switch (g.draw(4)) { case 0: return g.blob(n); case 1: return std::string(n, 'x'); case 2: { std::string s; while (s.size() < n) s += g.oneof<std::string>({"\r\n", "0\r\n\r\n", "HTTP/1.1 200 OK\r\n", "\r", "\n", "abc", "5\r\n", ";"}); s.resize(n); return s; } default: { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(i * 31 + i / 251); return s; } }
}
static Res makeRes(Gen& g) {
    Res r; r.version = g.oneof<std::string>({"HTTP/1.1", "HTTP/1.0"}); r.status = std::to_string(g.chance(60, 100) ? g.oneof({200, 404, 500, 201, 416, 301, 206}) : 200 + (int)g.draw(400)); if (r.status == "204" || r.status == "304") r.status.back() = '5';     // these have no body: N27
    r.reason = g.oneof<std::string>({"OK", "Not Found", "Internal Server Error", "", "I'm a teapot", "a b c d", "x"});
    r.wire = r.version + " " + r.status + " " + r.reason + "\r\n"; std::size_t n = g.size(10); std::set<std::string> used; r.body = bodyBytes(g); std::string framed;
    int kind = (int)g.draw(5); if (kind == 4) { r.body.clear(); r.how = "none"; } else r.how = kind < 2 ? "length" : "chunked";
    std::vector<std::pair<std::string, std::string>> fs;
    for (std::size_t i = 0; i < n; ++i) { auto k = nt::fieldName(g); if (used.insert(nt::low(k)).second) fs.emplace_back(k, nt::fieldValue(g, g.chance(10, 100) ? 9000 : 300)); }
    if (r.how == "length") fs.insert(fs.begin() + (long)g.draw(fs.size() + 1), {g.oneof<std::string>({"Content-Length", "content-length", "CONTENT-LENGTH"}), std::to_string(r.body.size())}), framed = r.body;
    if (r.how == "chunked") {
        fs.insert(fs.begin() + (long)g.draw(fs.size() + 1), {g.oneof<std::string>({"Transfer-Encoding", "transfer-encoding"}), "chunked"}); std::size_t p = 0, k = 0, style = g.draw(4), step = 1 + g.draw(style == 0 ? 3 : style == 1 ? 40 : 20000); auto const& s = r.body; char b[40];
        while (p < s.size()) { std::size_t m = std::min(s.size() - p, style == 3 || ++k > 300 ? s.size() : step); std::snprintf(b, sizeof b, g.boolean() ? "%zx" : "%zX", m); r.marks.push_back(framed.size()); framed += (g.chance(10, 100) ? "0" : "") + std::string(b) + (g.chance(8, 100) ? g.oneof<std::string>({";x", ";n=v", "; q=\"a\""}) : "") + "\r\n"; r.marks.push_back(framed.size()); framed += s.substr(p, m) + "\r\n"; p += m; }
        r.marks.push_back(framed.size()); framed += "0\r\n"; if (g.chance(15, 100)) framed += "X-Sum: " + nt::fieldValue(g, 60) + "\r\n"; framed += "\r\n";
    }
    for (auto& [k, v] : fs) r.wire += k + ":" + g.oneof<std::string>({" ", " ", " ", "", "  ", "\t"}) + v + g.oneof<std::string>({"", "", "", " ", "\t"}) + "\r\n";
    r.fields = fs; r.wire += "\r\n"; r.headEnd = r.wire.size(); for (auto& m : r.marks) m += r.headEnd; for (auto m : nt::crlfs(r.wire)) r.marks.push_back(m); r.marks.push_back(r.headEnd); r.wire += framed; r.marks.push_back(r.wire.size()); return r;
}
template <typename T> static void compare(T& res, Res const& r, int api) {
    PBT_EQ(std::string(res.getStatusCode()), r.status, "status"); PBT_EQ(std::string(res.getProtocolVersion()), r.version, "version"); PBT_EQ(std::string(res.getStatusMessage()), r.reason, "reason");
    auto const& m = std::as_const(res).getHeaders(); PBT_EQ(m.size(), r.fields.size(), "number of header fields");
    for (auto& [k, v] : r.fields) for (auto q : {k, nt::low(k)}) { auto it = m.find(q); PBT_CHECK(it != m.end(), "field " << quote(q) << " is missing"); PBT_EQ(it->second, v, "value of field " << quote(q)); }
    std::string got; if (api == 0) got = res.getBody(); else { auto d = res.makeResponseData(); PBT_EQ(d.status, std::stoi(r.status), "status number"); PBT_EQ(d.headers.size(), r.fields.size(), "fields of the response data"); for (auto& [k, v] : r.fields) PBT_CHECK(d.headers.count(k) && d.headers.find(k)->second == v, "field " << quote(k) << " of the response data"); got = std::move(d.body); }
    PBT_CHECK(got.size() == r.body.size(), "body has " << got.size() << " of " << r.body.size() << " bytes: " << quote(got, 200)); PBT_CHECK(got == r.body, "body differs at " << (std::mismatch(got.begin(), got.end(), r.body.begin()).first - got.begin()));
}
static void whole(Gen& g) {
    std::vector<Res> rs; std::string wire, desc; std::vector<std::size_t> marks; std::size_t n = g.chance(65, 100) ? 1 : 2 + g.draw(4);
    for (std::size_t i = 0; i < n; ++i) { rs.push_back(makeRes(g)); for (auto m : rs.back().marks) marks.push_back(wire.size() + m); wire += rs.back().wire; desc += rs.back().how + " " + std::to_string(rs.back().body.size()) + "B "; }
    auto frags = nt::split(g, wire, marks); bool split = g.boolean(); int api = (int)g.draw(2);
    g.describe(desc + std::to_string(frags.size()) + " pieces: " + quote(wire, 400)); g.nontrivial(frags.size() > 1 && rs[0].fields.size() > 1); g.label(rs[0].how);
    nt::Duplex d; d.feed(frags, g.boolean() ? nt::End::HalfClose : nt::End::Open); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpResponse<HttpIO> res{io};
    for (auto& r : rs) {
        if (split) { PBT_CHECK(loop.sync(res.parserResHead<Long>()), "a complete head was reported as incomplete"); PBT_EQ(std::string(res.getStatusCode()), r.status, "status"); PBT_CHECK(loop.sync(res.parseBody<Long>()), "a complete body was reported as incomplete"); }
        else PBT_CHECK(loop.sync(res.parserRes<Long>()), "a complete response was reported as incomplete");
        compare(res, r, api); res.clear();
    }
}
static void cut(Gen& g) {
    auto r = makeRes(g); std::size_t at = g.chance(40, 100) ? r.wire.size() - 1 - g.draw(std::min<std::size_t>(r.wire.size(), 8)) : g.chance(30, 100) ? std::min(r.wire.size() - 1, g.pick(r.marks) + g.draw(3)) : g.draw(r.wire.size());
    auto wire = r.wire.substr(0, at); auto frags = nt::split(g, wire, r.marks); auto end = g.oneof({nt::End::HalfClose, nt::End::HalfClose, nt::End::Close});
    g.describe(r.how + " response with " + std::to_string(r.body.size()) + " body bytes cut after " + std::to_string(at) + " of " + std::to_string(r.wire.size())); g.nontrivial(at > 12); g.label(r.how + (at > r.headEnd ? " body" : " head"));
    nt::Duplex d; d.feed(frags, end); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpResponse<HttpIO> res{io}; bool ok = false, threw = false;
    try { ok = loop.sync(res.parserRes<Long>()); } catch (std::exception const& e) { threw = true; PBT_CHECK(end == nt::End::Close, "a connection closed inside a response is reported as incomplete, not as " << e.what()); }
    PBT_CHECK(!ok, "a response cut after " << at << " of " << r.wire.size() << " bytes was reported as complete");
}
// damaged framing is refused
static void malformed(Gen& g) {
    auto body = g.strUpTo("abcdef", 20, 3); char hexs[20]; std::snprintf(hexs, sizeof hexs, "%zx", body.size()); std::string hx = hexs, start = "HTTP/1.1 200 OK\r\n", head = "Transfer-Encoding: chunked\r\n", wire; auto len = std::to_string(body.size());
    switch (g.draw(10)) {
    case 0: wire = "g" + hx + "\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 1: wire = "\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 2: wire = "-" + hx + "\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 3: wire = hx + "\r\n" + body + "xx0\r\n\r\n"; break;
    case 4: wire = "fffffffffffffffff\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 5: wire = hx + "z\r\n" + body + "\r\n0\r\n\r\n"; break;
    case 6: head = "Content-Length: " + g.oneof<std::string>({"-", "+", "0x", "1e", ""}) + g.oneof<std::string>({"", "x"}) + "\r\n"; wire = body; break;
    case 7: head = "Content-Length: -" + len + "\r\n"; wire = body; break;
    case 8: head = "Content-Length: " + len + g.oneof<std::string>({"x", " 1", ",", ".0"}) + "\r\n"; wire = body; break;
    case 9: head = "Content-Length: " + len + "\r\n" + g.oneof<std::string>({"noColonHere\r\n", ": novalue\r\n", "sp ace: x\r\n"}); wire = body; break;
    }
    auto all = start + head + "\r\n" + wire; auto frags = nt::split(g, all, nt::crlfs(all)); g.describe(quote(all)); g.nontrivial();
    nt::Duplex d; d.feed(frags, nt::End::HalfClose); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpResponse<HttpIO> res{io}; bool ok = false;
    try { ok = loop.sync(res.parserRes<Long>()); } catch (std::exception const&) { }
    PBT_CHECK(!ok, "a malformed response was accepted as complete, with body " << quote(res.getBody()));
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N03",
        .rule = "generated responses (any status and reason, fields in any legal spelling, Content-Length / chunked / no body, 0 bytes to beyond the file buffer) alone or in sequence on one connection, any fragmentation; non-trivial: several fields and fragments / cut inside the head or body",
        .assumptions = {"a single line fits the 16 KiB receive buffer", "field names are distinct", "a response without framing has no body (bodies ended by closing the connection are not supported)"}},
        {{"whole", whole, 25000, 1000000, 40}, {"cut", cut, 25000, 1000000, 40}, {"malformed", malformed, 10000, 200000, 40}});
}

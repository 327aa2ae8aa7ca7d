// technique: property-based testing: generated request heads sent through a socket in generated fragments, compared with the parts they were built from
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/http/Request.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s);

struct Head { std::string method, target, path, version, wire; std::vector<std::pair<std::string, std::string>> fields; std::map<std::string, std::string> query; std::size_t firstLine = 0; };
static Head makeHead(Gen& g) {
    Head h;
    h.method = g.chance(70, 100) ? g.oneof<std::string>({"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT"}) : g.strUpTo(nt::kToken, 12, 1);
    h.version = g.oneof<std::string>({"HTTP/1.1", "HTTP/1.0"});
    h.path = "/"; std::size_t segs = g.size(6);
    for (std::size_t i = 0; i < segs; ++i) h.path += g.strUpTo("abcXYZ019-._~!$&'()*+,;=:@%/", 10) + (g.chance(60, 100) ? "/" : "");
    if (g.chance(4, 100)) h.path += g.str("ab/", g.sizeNear({15000, 16384 - 40}, 15900));
    h.target = h.path;
    if (g.chance(50, 100)) {
        h.target += "?"; std::size_t n = g.size(6);
        for (std::size_t i = 0; i < n; ++i) {
            auto k = g.strUpTo("abcK_.%2?/", 5, 1) + (g.chance(50, 100) ? std::to_string(i) : ""); bool dup = h.query.count(k); std::string v;
            if (i) h.target += "&";
            h.target += k;
            if (dup) { h.target += std::to_string(i) + "-"; k += std::to_string(i) + "-"; if (h.query.count(k)) pbt::discard(); }
            if (g.chance(75, 100)) { v = g.strUpTo("abc=?/+%2019;:", 8); h.target += "=" + v; }
            h.query[k] = v;
        }
    }
    h.wire = h.method + " " + h.target + " " + h.version + "\r\n"; h.firstLine = h.wire.size();
    std::size_t n = g.size(14); std::set<std::string> used;
    for (std::size_t i = 0; i < n; ++i) {
        auto k = nt::fieldName(g); if (!used.insert(nt::low(k)).second) continue;
        auto v = nt::fieldValue(g, g.chance(10, 100) ? 12000 : 300); h.fields.emplace_back(k, v);
        h.wire += k + ":" + g.oneof<std::string>({" ", " ", " ", "", "  ", "\t", " \t "}) + v + g.oneof<std::string>({"", "", "", "", " ", "\t "}) + "\r\n";
    }
    h.wire += "\r\n"; return h;
}
template <typename Req> static void compare(Req& req, Head const& h) {
    PBT_EQ(std::string(req.getReqType()), h.method, "method"); PBT_EQ(std::string(req.getReqPath()), h.target, "target");
    PBT_EQ(req.getPureReqPath(), h.path, "path without query"); PBT_EQ(std::string(req.getProtocolVersion()), h.version, "version");
    auto const& m = req.getHeaders(); PBT_EQ(m.size(), h.fields.size(), "number of header fields");
    for (auto& [k, v] : h.fields) for (int u = 0; u < 3; ++u) {
        auto q = k; if (u) for (auto& c : q) if (u == 1) c = (char)std::tolower((unsigned char)c); else c = (char)std::toupper((unsigned char)c);
        auto it = m.find(q); PBT_CHECK(it != m.end(), "field " << quote(q) << " is missing"); PBT_EQ(it->second, v, "value of field " << quote(q));
    }
    std::map<std::string, std::string> q; for (auto& [k, v] : req.getParseQueryParameters()) q[k] = v; PBT_EQ(q, h.query, "query parameters of " << quote(h.target));
}
static void whole(Gen& g) {
    auto h = makeHead(g); std::string extra = g.chance(40, 100) ? g.blob(g.size(g.chance(10, 100) ? 20000 : 60)) : "";
    auto wire = h.wire + extra; auto marks = nt::crlfs(h.wire); marks.push_back(h.wire.size()); auto frags = nt::split(g, wire, marks);
    g.describe(quote(h.wire, 500) + " + " + std::to_string(extra.size()) + " bytes in " + std::to_string(frags.size()) + " pieces"); g.nontrivial(h.fields.size() > 1 && frags.size() > 1);
    nt::Duplex d; d.feed(frags, nt::End::HalfClose);
    coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpRequest<HttpIO> req{io};
    bool ok = loop.sync(req.parserReqHead<Long>()); PBT_CHECK(ok, "a complete head was reported as a closed connection"); compare(req, h);
}
// the peer closes, or resets, before the head is complete
static void truncated(Gen& g) {
    auto h = makeHead(g); std::size_t cut = g.chance(40, 100) ? h.wire.size() - 1 - g.draw(std::min<std::size_t>(h.wire.size(), 6)) : g.draw(h.wire.size());
    auto wire = h.wire.substr(0, cut); auto frags = nt::split(g, wire, nt::crlfs(wire)); auto end = g.oneof({nt::End::HalfClose, nt::End::Close});
    g.describe(quote(wire, 500) + " then closed"); g.nontrivial(cut > h.firstLine);
    nt::Duplex d; d.feed(frags, end); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpRequest<HttpIO> req{io}; bool ok = true;
    try { ok = loop.sync(req.parserReqHead<Long>()); } catch (std::exception const& e) { PBT_CHECK(end != nt::End::HalfClose, "a connection closed inside a head is reported as closed, not as " << e.what()); ok = false; }
    PBT_CHECK(!ok, "a head cut after " << cut << " of " << h.wire.size() << " bytes was reported as parsed");
}
// one request object read in turn from a connection: nothing of a head is left in the next
static void sequence(Gen& g) {
    std::vector<Head> hs; std::string wire; std::vector<std::size_t> marks; std::size_t n = 2 + g.draw(4);
    for (std::size_t i = 0; i < n; ++i) { hs.push_back(makeHead(g)); wire += hs.back().wire; marks.push_back(wire.size()); }
    auto frags = nt::split(g, wire, marks); g.describe(std::to_string(n) + " heads, " + std::to_string(frags.size()) + " pieces: " + quote(wire, 500)); g.nontrivial(frags.size() > 1);
    nt::Duplex d; d.feed(frags, nt::End::HalfClose); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpRequest<HttpIO> req{io};
    for (auto& h : hs) { PBT_CHECK(loop.sync(req.parserReqHead<Long>()), "a complete head was reported as a closed connection"); compare(req, h); loop.sync(req.clear()); }
    PBT_CHECK(!loop.sync(req.parserReqHead<Long>()), "a head was parsed from nothing");
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N01",
        .rule = "generated heads (any token method, targets with queries, fields with any legal spelling, lines up to the 16 KiB buffer, heads beyond it), every kind of fragmentation; non-trivial: several fields and more than one fragment / cut after the request line / several heads in several fragments",
        .assumptions = {"a single line fits the 16 KiB receive buffer", "field names are distinct (repeated names are not combined)", "query keys are distinct and not empty", "no obsolete line folding"}},
        {{"whole", whole, 40000, 1500000, 40}, {"truncated", truncated, 25000, 1000000, 40}, {"sequence", sequence, 15000, 600000, 40}});
}

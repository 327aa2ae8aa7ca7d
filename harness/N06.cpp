// technique: property-based testing: generated requests and responses are sent through a socket with a small buffer and a paced reader, and read back by an independent HTTP/1.1 parser
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s);

static std::string bodyBytes(Gen& g) {
    std::size_t n = g.chance(75, 100) ? g.size(400) : g.sizeNear({16384, 16384 - 200, 65536, 131072, 212992}, g.chance(15, 100) ? 1500000 : 60000);
    if (g.boolean()) return g.blob(n); std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(i * 31 + i / 251); return s;
}
using Fields = std::vector<std::pair<std::string, std::string>>;
static Fields makeFields(Gen& g) { Fields f; std::set<std::string> used{"connection", "server", "content-type"}; std::size_t n = g.size(12); for (std::size_t i = 0; i < n; ++i) { auto k = nt::fieldName(g); if (used.insert(nt::low(k)).second) f.emplace_back(k, nt::fieldValue(g, g.chance(8, 100) ? 40000 : 300)); } return f; }
struct Pace { int sndbuf = 0; std::size_t step = 65536; int us = 0; std::string show() const { return "send buffer " + std::to_string(sndbuf) + " reader " + std::to_string(step) + "B/" + std::to_string(us) + "us"; } };
static Pace makePace(Gen& g) { Pace p; if (g.boolean()) { p.sndbuf = g.oneof({4608, 10000, 60000}); p.step = g.oneof<std::size_t>({700, 4096, 20000, 65536}); p.us = g.chance(30, 100) ? (int)g.draw(60) : 0; } return p; }
static void checkFields(nt::Msg const& m, Fields const& f, std::map<std::string, std::string> own) {
    for (auto& [k, v] : f) own[nt::low(k)] = v;
    for (auto& [k, v] : own) { auto it = m.head.find(k); PBT_CHECK(it != m.head.end(), "field " << quote(k) << " is not on the wire"); PBT_EQ(it->second, v, "value of field " << quote(k)); PBT_EQ(m.count.at(k), 1, "occurrences of field " << quote(k)); }
    for (auto& [k, v] : m.head) PBT_CHECK(own.count(k), "field " << quote(k) << ": " << quote(v) << " was never set");
}
template <HttpMethod M> static void setLine(HttpRequest<HttpIO>& r, std::string const& t) { r.setReqLine<M>(t); }
static void request(Gen& g) {
    struct R { std::string method, target, body; Fields f; int api; }; std::vector<R> rs; std::size_t n = g.chance(70, 100) ? 1 : 2 + g.draw(3), total = 0; std::string desc;
    static const char* const names[] = {"GET", "POST", "DELETE", "HEAD", "PUT", "CONNECT", "PATCH", "OPTIONS", "TRACE"};
    for (std::size_t i = 0; i < n; ++i) { R r; r.method = std::to_string(g.draw(9)); r.target = "/" + g.strUpTo("abcXYZ019-._~!$&'()*+,;=:@%/?", g.chance(10, 100) ? 9000 : 30); r.f = makeFields(g); if (g.chance(70, 100)) r.body = bodyBytes(g); r.api = (int)g.draw(4); total += r.body.size(); desc += std::string(names[std::stoi(r.method)]) + " " + quote(r.target, 40) + " " + std::to_string(r.f.size()) + " fields " + std::to_string(r.body.size()) + "B; "; rs.push_back(std::move(r)); }
    auto p = makePace(g); g.describe(desc + p.show()); g.nontrivial(total > 0 && rs[0].f.size() > 1);
    nt::Duplex d(p.sndbuf); if (p.sndbuf || total > 100000) d.collect(p.step, p.us);
    coroutine::EventLoop loop; HttpIO io{d.lib, loop};
    for (auto& r : rs) {
        HttpRequest<HttpIO> req{io}; using H = HttpMethod;
        switch (std::stoi(r.method)) { case 0: setLine<H::GET>(req, r.target); break; case 1: setLine<H::POST>(req, r.target); break; case 2: setLine<H::DEL>(req, r.target); break; case 3: setLine<H::HEAD>(req, r.target); break; case 4: setLine<H::PUT>(req, r.target); break; case 5: setLine<H::CONNECT>(req, r.target); break; case 6: setLine<H::PATCH>(req, r.target); break; case 7: setLine<H::OPTIONS>(req, r.target); break; case 8: setLine<H::TRACE>(req, r.target); break; }
        switch (r.api) {
        case 0: for (auto& [k, v] : r.f) req.addHeaders(k, v); break;
        case 1: req.addHeaders(r.f); break;
        case 2: { HeaderHashMap m; for (auto& [k, v] : r.f) m[k] = v; if (g.boolean()) req.addHeaders(m); else req.addHeaders(std::move(m)); break; }
        case 3: for (auto& [k, v] : r.f) { req.tryAddHeaders(k, v); req.tryAddHeaders(k, std::string("other")); } break;
        }
        if (!r.body.empty()) req.setBody(r.body);
        loop.sync(req.sendHttpReq<Long>());
    }
    auto w = d.received(); std::size_t pos = 0;
    try {
        for (auto& r : rs) {
            auto m = nt::readMsg(w, pos, false); PBT_EQ(m.start, std::string(names[std::stoi(r.method)]) + " " + r.target + " HTTP/1.1", "request line");
            std::map<std::string, std::string> own; if (!r.body.empty()) own["content-length"] = std::to_string(r.body.size()); checkFields(m, r.f, own);
            PBT_CHECK(m.body == r.body, "body of " << r.body.size() << " bytes arrived as " << m.body.size() << " bytes, first difference at " << (std::mismatch(m.body.begin(), m.body.begin() + (long)std::min(m.body.size(), r.body.size()), r.body.begin()).first - m.body.begin()));
        }
    } catch (nt::Bad const& b) { PBT_FAIL("not a well-formed request: " << b.why << " in " << quote(w, 300)); }
    PBT_CHECK(pos == w.size(), "bytes follow the last message: " << quote(std::string_view(w).substr(pos), 100));
}
static const int kStatuses[] = {200, 100, 101, 102, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 305, 307, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511};
static std::string reason(int s) {     // the reason phrases that have only one spelling
    static const std::map<int, std::string> m{{100, "Continue"}, {101, "Switching Protocols"}, {200, "OK"}, {201, "Created"}, {202, "Accepted"}, {204, "No Content"}, {206, "Partial Content"}, {301, "Moved Permanently"}, {304, "Not Modified"}, {307, "Temporary Redirect"}, {400, "Bad Request"}, {401, "Unauthorized"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {409, "Conflict"}, {410, "Gone"}, {411, "Length Required"}, {426, "Upgrade Required"}, {429, "Too Many Requests"}, {500, "Internal Server Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"}, {505, "HTTP Version Not Supported"}};
    auto it = m.find(s); return it == m.end() ? "" : it->second;
}
static void response(Gen& g) {
    struct R { int status; std::string describe, body, type; Fields f; int api; }; std::vector<R> rs; std::size_t n = g.chance(70, 100) ? 1 : 2 + g.draw(3), total = 0; std::string desc;
    for (std::size_t i = 0; i < n; ++i) { R r; r.status = g.pick(kStatuses); r.api = (int)g.draw(3); if (r.api == 0 && g.boolean()) r.describe = g.oneof<std::string>({"Fine", "A b c", "Not: found", "x y"}); r.f = makeFields(g); if (r.status >= 200 && r.status != 204 && r.status != 304) r.body = bodyBytes(g); if (g.chance(15, 100)) r.f.emplace_back("Connection", "close"); if (g.chance(15, 100)) r.f.emplace_back("server", "mine"); total += r.body.size(); desc += std::to_string(r.status) + " " + std::to_string(r.f.size()) + " fields " + std::to_string(r.body.size()) + "B; "; rs.push_back(std::move(r)); }
    auto p = makePace(g); g.describe(desc + p.show()); g.nontrivial(total > 0 && rs[0].f.size() > 1);
    nt::Duplex d(p.sndbuf); if (p.sndbuf || total > 100000) d.collect(p.step, p.us);
    coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpResponse<HttpIO> res{io};
    for (auto& r : rs) {
        auto s = static_cast<Status>(r.status);
        switch (r.api) { case 0: res.setResLine(s, r.describe); res.setBody(r.body); break; case 1: { struct { HttpContentType t; char const* s; } ts[] = {{HttpContentType::Html, "text/html"}, {HttpContentType::Json, "application/json"}, {HttpContentType::Text, "text/plain"}, {HttpContentType::OctetStream, "application/octet-stream"}, {HttpContentType::Xml, "application/xml"}, {HttpContentType::FormUrlEncode, "application/x-www-form-urlencoded"}}; auto& t = g.pick(ts); res.setResLine(s).setContentType(t.t).setBody(r.body); r.type = t.s; break; } case 2: res.setStatusAndContent(s, r.body); r.type = "text/"; break; }
        for (auto& [k, v] : r.f) res.addHeader(k, v);
        loop.sync(res.sendRes()); res.clear();
    }
    auto w = d.received(); std::size_t pos = 0;
    try {
        for (auto& r : rs) {
            auto m = nt::readMsg(w, pos, true); auto pre = "HTTP/1.1 " + std::to_string(r.status) + " ";
            PBT_CHECK(m.start.substr(0, pre.size()) == pre && m.start.size() > pre.size(), "status line " << quote(m.start)); auto want = r.describe.empty() ? reason(r.status) : r.describe; if (!want.empty()) PBT_EQ(m.start, pre + want, "status line");
            std::map<std::string, std::string> own{{"content-length", std::to_string(r.body.size())}, {"connection", "keep-alive"}, {"server", m.head.count("server") ? m.head["server"] : "?"}};
            if (!r.type.empty()) { auto t = m.head["content-type"]; PBT_EQ(t.substr(0, r.type.size()), r.type, "content type"); own["content-type"] = t; }
            checkFields(m, r.f, own);
            PBT_CHECK(m.body == r.body, "body of " << r.body.size() << " bytes arrived as " << m.body.size() << " bytes");
        }
    } catch (nt::Bad const& b) { PBT_FAIL("not a well-formed response: " << b.why << " in " << quote(w, 300)); }
    PBT_CHECK(pos == w.size(), "bytes follow the last message: " << quote(std::string_view(w).substr(pos), 100));
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N06",
        .rule = "all request methods, statuses, targets, field maps and bodies up to 1.5 MB, one or several messages on a connection, through full or tiny socket buffers with readers of any pace; non-trivial: fields and a body",
        .assumptions = {"targets, names and values set by the application are legal HTTP text", "the application does not set Content-Length or Transfer-Encoding itself", "statuses that allow no body are sent without one"}},
        {{"request", request, 20000, 500000, 60}, {"response", response, 20000, 500000, 60}});
}

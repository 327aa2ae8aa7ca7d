// technique: property-based testing: generated request sequences served on one connection, compared with a model of every request and, differentially, with each request served on a fresh connection
// opt: -O1
#include <common/net.hpp>
#include <fstream>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;

static std::vector<std::string> g_log; static std::atomic_bool* g_run;
static std::string slurp(std::string const& p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
static std::string seen(Req& q) {      // everything the request reports, but for the body
    std::map<std::string, std::string> h(q.getHeaders().begin(), q.getHeaders().end()), p; for (auto& [k, v] : q.getParseQueryParameters()) p[k] = v;
    std::string s = std::string(q.getReqType()) + " " + std::string(q.getReqPath()) + " " + std::string(q.getPureReqPath()) + " " + std::string(q.getProtocolVersion()) + "|";
    for (auto& [k, v] : h) s += k + "=" + v + ";"; s += "|"; for (auto& [k, v] : p) s += k + "=" + v + ";"; return s;
}
static coroutine::Task<> reply(Req& q, Res& r, std::string name, std::string more) {
    auto it = q.getHeaders().find("x-reply"); int how = it == q.getHeaders().end() ? 0 : std::stoi(it->second);
    std::string body = name + " " + seen(q) + "|" + more;
    if (how & 1) r.addHeader("X-Extra", "e" + std::to_string(how)); if (how & 2) r.setContentType(JSON);
    if (how & 4) r.setStatusAndContent(Status::CODE_404, body); else { r.setStatusAndContent(Status::CODE_200, body); }
    if (how & 8) r.addHeader("Connection", "keep-alive"); if (how & 16) r.addHeader("Server", "other");
    g_log.push_back(body); co_await r.sendRes();
}
static Router<HttpIO>& router() {
    static Router<HttpIO>* r = [] { auto* r = new Router<HttpIO>;
        auto echo = [](Req& q, Res& r) -> coroutine::Task<> { auto b = co_await q.parseBody<Long>(); co_await reply(q, r, "echo", b); };
        auto ignore = [](Req& q, Res& r) -> coroutine::Task<> { co_await reply(q, r, "ignore", ""); };
        r->addEndpoint<GET, POST, PUT>("/echo", echo); r->addEndpoint<GET, POST, PUT>("/ignore", ignore);
        r->addEndpoint<POST>("/late", [](Req& q, Res& r) -> coroutine::Task<> { co_await reply(q, r, "late", ""); (void)co_await q.parseBody<Long>(); });       // reads the body after answering
        r->addEndpoint<GET, POST>("/p/{a}/{b}", [](Req& q, Res& r) -> coroutine::Task<> { auto b = co_await q.parseBody<Long>(); co_await reply(q, r, "params", q.getPathParam(0).to<std::string>() + "," + q.getPathParam(1).to<std::string>() + "," + b); });
        r->addEndpoint<GET, POST>("/w/{a}/**", [](Req& q, Res& r) -> coroutine::Task<> { co_await reply(q, r, "wild", q.getPathParam(0).to<std::string>() + "," + std::string(q.getUniversalWildcardPath())); });
        r->addEndpoint<POST>("/save", [](Req& q, Res& r) -> coroutine::Task<> { auto f = pbt::scratch() + "/n04.bin"; co_await q.saveToFile<Long>(f); co_await reply(q, r, "save", slurp(f)); });
        r->addEndpoint<GET, POST>("/stop", [](Req& q, Res& r) -> coroutine::Task<> { g_run->store(false); co_await reply(q, r, "stop", ""); });
        r->addEndpoint<GET, POST>("/throw", [](Req& q, Res&) -> coroutine::Task<> { g_log.push_back("throw " + seen(q) + "|"); throw std::runtime_error("handler"); co_return; });
        r->addEndpoint<POST>("/catch", [](Req& q, Res& r) -> coroutine::Task<> { std::string b; bool bad = false; try { b = co_await q.parseBody<Long>(); } catch (std::exception const&) { bad = true; } co_await reply(q, r, "catch", bad ? "<bad>" : b); });
        r->setErrorEndpointFunc([](Req& q, Res& r) -> coroutine::Task<> { g_log.push_back("missing " + seen(q) + "|"); co_await r.setStatusAndContent(Status::CODE_404, "missing " + seen(q) + "|").sendRes(); });
        return r; }();
    return *r;
}
struct One { std::string wire, want, path; bool answered = true, ends = false; std::size_t bodyAt = 0; };     // want: what the handler logs and answers
static std::string framed(Gen& g, std::string const& body, std::string& head) {
    if (g.boolean()) { head += "Content-Length: " + std::to_string(body.size()) + "\r\n"; return body; }
    head += "Transfer-Encoding: chunked\r\n"; std::string w; std::size_t p = 0, step = 1 + g.draw(g.boolean() ? 5 : 5000);
    for (int k = 0; p < body.size(); ++k) { auto n = k > 100 ? body.size() - p : std::min(step, body.size() - p); char b[20]; std::snprintf(b, sizeof b, "%zx\r\n", n); w += b + body.substr(p, n) + "\r\n"; p += n; }
    return w + "0\r\n" + (g.chance(15, 100) ? "X-T: 1\r\n" : "") + "\r\n";
}
static One make(Gen& g, bool last) {
    One o; std::string method = g.oneof<std::string>({"GET", "POST", "POST", "PUT"}), more; std::size_t kind = g.draw(last ? 11 : 9);
    std::string a = g.strUpTo("ab1-", 5, 1), b = g.strUpTo("xyz.", 5, 1), name;
    switch (kind) {
    case 0: case 1: o.path = "/echo"; name = "echo"; break;
    case 2: case 3: o.path = "/ignore"; name = "ignore"; break;
    case 4: o.path = "/late"; method = "POST"; name = "late"; break;
    case 5: o.path = "/p/" + a + "/" + b; if (method == "PUT") method = "GET"; name = "params"; more = a + "," + b + ","; break;
    case 6: o.path = "/w/" + a + "/" + b + (g.boolean() ? "/" + a : ""); if (method == "PUT") method = "POST"; name = "wild"; break;
    case 7: o.path = "/save"; method = "POST"; name = "save"; break;
    case 8: o.path = g.oneof<std::string>({"/nothing", "/echo/x", "/p/" + a}); name = "missing"; break;
    case 9: o.path = "/stop"; if (method == "PUT") method = "GET"; name = "stop"; o.ends = true; break;
    case 10: o.path = "/throw"; if (method == "PUT") method = "GET"; name = "throw"; o.ends = true; o.answered = false; break;
    }
    if (kind == 6) more = a + "," + o.path.substr(("/w/" + a + "/").size());
    std::map<std::string, std::string> hs, ps; std::string head, pure = o.path, target = o.path, body, wbody, version = g.chance(90, 100) ? "HTTP/1.1" : "HTTP/1.0";
    if (g.chance(30, 100)) { auto v = g.strUpTo("ab1/", 6), k = g.strUpTo("qk", 3, 1); target += "?" + k + "=" + v; ps[k] = v; }
    for (std::size_t i = 0, n = g.draw(4); i < n; ++i) { auto k = "X-" + g.strUpTo("abAB", 3, 1), v = nt::fieldValue(g, 200); if (!hs.emplace(nt::low(k), v).second) continue; head += k + ":" + (g.boolean() ? " " : "") + v + "\r\n"; }
    if (g.chance(60, 100)) { auto v = std::to_string(g.draw(32)); hs["x-reply"] = v; head += "X-Reply: " + v + "\r\n"; }
    bool hasBody = method != "GET" || g.chance(20, 100);
    if (hasBody) { std::size_t n = g.chance(80, 100) ? g.size(200) : g.sizeNear({16384, 16300, 32768}, 50000); body = g.boolean() ? g.blob(n) : std::string(); while (body.size() < n) body += g.oneof<std::string>({"GET /echo HTTP/1.1\r\n\r\n", "POST /ignore HTTP/1.1\r\nContent-Length: 3\r\n\r\n", "0\r\n\r\n", "\r\n", "abc"}); body.resize(n);
        auto before = head.size(); wbody = framed(g, body, head); auto l = head.substr(before); hs[nt::low(l.substr(0, l.find(':')))] = l.substr(l.find(':') + 2, l.size() - l.find(':') - 4); }
    if (g.chance(last ? 40 : 4, 100)) { auto v = g.oneof<std::string>({"close", "Close", "CLOSE", "close", "TE, close", "close, TE", "keep-alive", "Keep-Alive", "x-close", "closed"}); head += "Connection: " + v + "\r\n"; hs["connection"] = v; auto l = nt::low(v); if (l == "close" || l == "te, close" || l == "close, te") o.ends = true; }
    if (name == "echo" || name == "save") more = body; if (name == "params") more += body;
    std::string s = method + " " + target + " " + pure + " " + version + "|"; for (auto& [k, v] : hs) s += k + "=" + v + ";"; s += "|"; for (auto& [k, v] : ps) s += k + "=" + v + ";";
    o.want = name + " " + s + "|" + more; o.wire = method + " " + target + " " + version + "\r\n" + head + "\r\n"; o.bodyAt = o.wire.size(); o.wire += wbody; return o;
}
static std::string serveAll(std::vector<std::string> frags, nt::End end, std::vector<std::string>& log) {
    g_log.clear(); std::atomic_bool run{true}; g_run = &run; nt::Duplex d; d.feed(std::move(frags), end); nt::serve<Long>(d, router(), run); auto out = d.received(); log = std::move(g_log); g_log.clear(); PBT_CHECK(d.peerEof, "the connection was not closed"); return out;
}
static std::string say(std::vector<std::string> const& v) { std::string s; for (auto& e : v) s += "[" + (e.size() > 200 ? e.substr(0, 200) + "..." + std::to_string(e.size()) : e) + "] "; return s; }
static void isolated(Gen& g) {
    std::size_t n = 1 + g.size(6); std::vector<One> os; std::string wire, desc; std::vector<std::size_t> marks, ends; bool over = false; std::vector<std::string> want; std::string fresh;
    for (std::size_t i = 0; i < n; ++i) {
        os.push_back(make(g, i + 1 == n || g.chance(8, 100))); auto& o = os.back(); marks.push_back(wire.size() + o.bodyAt); wire += o.wire; marks.push_back(wire.size()); ends.push_back(wire.size()); desc += quote(o.wire, 120) + " ";
        if (over) continue; want.push_back(o.want); over = o.ends;
    }
    std::vector<std::string> frags; if (g.chance(25, 100)) for (auto& o : os) frags.push_back(o.wire); else frags = nt::split(g, wire, marks);    // one request after the other, or pipelined
    g.describe(desc + std::to_string(frags.size()) + " pieces"); g.nontrivial(n > 1); g.label(over ? "ended by a request" : "ended by the peer");
    std::vector<std::string> log, l1; auto out = serveAll(frags, g.chance(70, 100) || !over ? nt::End::HalfClose : nt::End::Open, log);
    PBT_CHECK(log == want, "handlers saw " << say(log) << " but were sent " << say(want));
    std::size_t pos = 0; std::vector<std::string> got; try { while (pos < out.size()) got.push_back(nt::readMsg(out, pos, true).body); } catch (nt::Bad const& b) { PBT_FAIL("responses: " << b.why << " after " << got.size()); }
    std::vector<std::string> answers; for (std::size_t i = 0; i < want.size(); ++i) if (os[i].answered) answers.push_back(want[i]);
    PBT_CHECK(got == answers, "responses " << say(got) << " but expected " << say(answers));
    for (std::size_t i = 0; i < want.size(); ++i) fresh += serveAll({os[i].wire}, nt::End::HalfClose, l1);
    PBT_CHECK(fresh == out, "the responses differ from those on fresh connections at byte " << (std::mismatch(fresh.begin(), fresh.end(), out.begin(), out.end()).first - fresh.begin()) << ": " << quote(out, 600) << " but fresh " << quote(fresh, 600));
}
// the last request is cut short, or its body framing is malformed: what was complete is served, what was not is not
static void broken(Gen& g) {
    std::size_t n = g.draw(4); std::string wire, desc; std::vector<std::string> want; std::vector<std::size_t> marks;
    for (std::size_t i = 0; i < n; ++i) { auto o = make(g, false); if (o.ends) pbt::discard(); wire += o.wire; want.push_back(o.want); marks.push_back(wire.size()); }
    bool cut = g.chance(60, 100); std::string extra; bool reads = false;
    if (cut) { auto o = make(g, true); std::size_t at = g.chance(30, 100) && o.wire.size() > o.bodyAt ? o.bodyAt + g.draw(o.wire.size() - o.bodyAt) : g.draw(o.wire.size()); if (at >= o.bodyAt) { auto k = o.want.substr(0, o.want.find(' ')); reads = k == "echo" || k == "params" || k == "save"; if (!reads) want.push_back(o.want); } wire += o.wire.substr(0, at); desc = "cut after " + std::to_string(at) + " of " + quote(o.wire, 200); }
    else {   // the handler swallows the failure; nothing of the malformed body may be taken for a request
        std::string path = g.oneof<std::string>({"/catch", "/ignore"}), smuggled = "GET /echo HTTP/1.1\r\nX-S: 1\r\n\r\n", body = g.oneof<std::string>({"zz\r\n", "5\r\nabcde!!", "-1\r\n", "3\r\nabcd\r\n"}) + smuggled + smuggled;
        auto w = "POST " + path + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + body; wire += w; desc = quote(w); want.push_back(std::string(path == "/catch" ? "catch" : "ignore") + " POST " + path + " " + path + " HTTP/1.1|transfer-encoding=chunked;||" + (path == "/catch" ? "<bad>" : ""));
    }
    auto frags = nt::split(g, wire, marks); g.describe(std::to_string(n) + " requests, then " + desc); g.nontrivial(); g.label(cut ? "cut" : "malformed");
    std::vector<std::string> log; auto out = serveAll(frags, nt::End::HalfClose, log); PBT_CHECK(log == want, "handlers ran for " << say(log) << " but expected " << say(want));
    std::size_t pos = 0; std::vector<std::string> got; try { while (pos < out.size()) got.push_back(nt::readMsg(out, pos, true).body); } catch (nt::Bad const& b) { PBT_FAIL("responses: " << b.why << " after " << got.size()); }
    std::vector<std::string> answers; for (auto& w : want) if (w.substr(0, 6) != "throw ") answers.push_back(w); PBT_CHECK(got == answers, "responses " << say(got) << " but expected " << say(answers));
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N04",
        .rule = "1 to 7 requests on one connection (body-reading, body-ignoring, late-reading, file-saving, parameter, wildcard, missing, stopping and throwing handlers; both framings; bodies that look like requests; Connection fields), one at a time or pipelined in any fragmentation; non-trivial: more than one request, or a broken last one",
        .assumptions = {"an ignored body is sent without long pauses"}},
        {{"isolated", isolated, 30000, 1000000, 40}, {"broken", broken, 15000, 500000, 40}});
}

// technique: property-based testing: generated interceptor lists, outcomes and request sequences served over a real connection, against a model of the call order
// opt: -O1
#include <common/net.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;

// The hooks of interceptor i of endpoint e do what the request's X field says: one digit per hook, see `act`.
static std::vector<std::string> g_log;
static bool act(char kind, int e, int i, Req& req) {
    g_log.push_back(std::string(1, kind) + std::to_string(e) + "." + std::to_string(i));
    auto it = req.getHeaders().find(kind == 'b' ? "x-before" : "x-after"); return it == req.getHeaders().end() || it->second[(std::size_t)i] == '1';
}
static coroutine::Task<> answer(Req& req, Res& res, int e, int i) { co_await res.setStatusAndContent(Status::CODE_200, "veto " + std::to_string(e) + "." + std::to_string(i)).sendRes(); (void)req; }
enum Color : int { No = 0, Yes = 2 };
struct Id { int e, i; };
struct SyncBoth { Id d; bool before(Req& q, Res&) { return act('b', d.e, d.i, q); } bool after(Req& q, Res&) { return act('a', d.e, d.i, q); } };
struct SyncEnum { Id d; Color before(Req& q, Res&) { return act('b', d.e, d.i, q) ? Yes : No; } int after(Req& q, Res&) { return act('a', d.e, d.i, q) ? -3 : 0; } };
struct CoBoth { Id d; coroutine::Task<bool> before(Req& q, Res& r) { bool ok = act('b', d.e, d.i, q); if (!ok && q.getHeaders().contains("x-answer")) co_await answer(q, r, d.e, d.i); co_return ok; } coroutine::Task<bool> after(Req& q, Res&) { co_return act('a', d.e, d.i, q); } };
struct CoInt { Id d; coroutine::Task<int> before(Req& q, Res&) { co_return act('b', d.e, d.i, q) ? 7 : 0; } coroutine::Task<int> after(Req& q, Res& r) { auto& loop = static_cast<coroutine::EventLoop&>(r.getIO()); bool ok = act('a', d.e, d.i, q); co_await loop.makeTimer().sleepFor(std::chrono::microseconds(20)); co_return ok ? 1 : 0; } };
struct BeforeOnly { Id d; bool before(Req& q, Res&) { return act('b', d.e, d.i, q); } };
struct AfterOnly { Id d; bool after(Req& q, Res&) { return act('a', d.e, d.i, q); } };
struct CoBeforeOnly { Id d; coroutine::Task<bool> before(Req& q, Res&) { co_return act('b', d.e, d.i, q); } };
struct Neither { Id d; };
template <typename T> constexpr int kinds() { return (requires(T t, Req& q, Res& r) { t.before(q, r); } ? 1 : 0) | (requires(T t, Req& q, Res& r) { t.after(q, r); } ? 2 : 0); }

struct Endpoint { std::string path; std::vector<int> kinds; };        // what each interceptor has: 1 before, 2 after
static std::vector<Endpoint> g_eps;
template <typename... T> static void ep(Router<HttpIO>& r, std::string path) {
    int e = (int)g_eps.size(), i = 0; (void)i; g_eps.push_back({path, {kinds<T>()...}});
    auto f = [e](Req& req, Res& res) -> coroutine::Task<> { g_log.push_back("h" + std::to_string(e)); if (req.getHeaders().contains("x-throw")) throw std::runtime_error("handler"); co_await res.setStatusAndContent(Status::CODE_200, "handled " + std::to_string(e)).sendRes(); };
    if (path == "404") r.setErrorEndpointFunc(f, T{{e, i++}}...);
    else if (path.ends_with("**")) r.addEndpoint<GET, POST>(path, f, T{{e, i++}}...);
    else r.addEndpoint<GET>(path, f, T{{e, i++}}...);
}
// an lvalue interceptor is copied, not referenced
static void lvalueEp(Router<HttpIO>& r, std::string path) {
    int e = (int)g_eps.size(); g_eps.push_back({path, {3, 3}}); SyncBoth a{{e, 0}}; CoBoth b{{e, 1}};
    r.addEndpoint<GET>(path, [e](Req&, Res& res) -> coroutine::Task<> { g_log.push_back("h" + std::to_string(e)); co_await res.setStatusAndContent(Status::CODE_200, "handled " + std::to_string(e)).sendRes(); }, a, b);
    a.d.e = 99; b.d.e = 99;
}
static Router<HttpIO>& router() {
    static Router<HttpIO>* r = [] { auto* r = new Router<HttpIO>;
        ep<>(*r, "/none"); ep<SyncBoth>(*r, "/one"); ep<CoBoth>(*r, "/co"); ep<BeforeOnly, AfterOnly>(*r, "/ba"); ep<AfterOnly, BeforeOnly>(*r, "/ab");
        ep<SyncBoth, CoBoth, SyncEnum>(*r, "/three"); ep<CoInt, Neither, BeforeOnly, CoBoth>(*r, "/p/{id}"); ep<SyncEnum, CoBeforeOnly, AfterOnly, SyncBoth, CoBoth>(*r, "/five/{a}/**"); ep<CoBoth, CoInt, AfterOnly>(*r, "/w/**");
        ep<SyncBoth, BeforeOnly, CoBoth>(*r, "404"); lvalueEp(*r, "/lvalue"); ep<SyncBoth, SyncBoth, SyncBoth, SyncBoth>(*r, "/four"); ep<Neither, CoBeforeOnly>(*r, "/nb");
        // every kind of route with a chain whose first interceptor has no after(), no before(), or neither
        int n = 0; for (std::string tail : {"", "/{id}", "/**", "/{a}/**"}) { auto at = [&] { return "/r" + std::to_string(n++) + tail; };
            ep<BeforeOnly, CoBoth, AfterOnly>(*r, at()); ep<CoBeforeOnly, SyncEnum>(*r, at()); ep<AfterOnly, CoBoth, BeforeOnly>(*r, at()); ep<Neither, SyncBoth, CoInt>(*r, at()); ep<CoInt, BeforeOnly, SyncEnum>(*r, at()); ep<BeforeOnly>(*r, at()); ep<AfterOnly>(*r, at()); }
        return r; }();
    return *r;
}
static void chains(Gen& g) {
    auto& r = router(); g_log.clear(); std::vector<std::string> want, bodies; std::string wire, desc; std::size_t n = 1 + g.size(7), vetoes = 0; bool ends = false;
    for (std::size_t k = 0; k < n && !ends; ++k) {
        std::size_t e = g.draw(g_eps.size()); auto const& p = g_eps[e]; std::string path = p.path, method = "GET", b, a;
        if (path == "404") path = g.oneof<std::string>({"/missing", "/one/x", "/p"}); else if (path.ends_with("**")) { path.replace(path.size() - 2, 2, g.strUpTo("xy/", 4) + "z"); if (g.boolean()) method = "POST"; } if (auto q = path.find('{'); q != path.npos) path.replace(q, path.find('}') - q + 1, g.strUpTo("ab1", 3, 1));
        for (std::size_t i = 0; i < p.kinds.size(); ++i) { b += g.chance(75, 100) ? '1' : '0'; a += g.chance(75, 100) ? '1' : '0'; }
        bool throws = g.chance(5, 100), answer = g.boolean(), ok = true; std::string body;
        wire += method + " " + path + " HTTP/1.1\r\n" + (b.empty() ? "" : "X-Before: " + b + "\r\nX-After: " + a + "\r\n") + (throws ? "X-Throw: 1\r\n" : "") + (answer ? "X-Answer: 1\r\n" : "") + "\r\n";
        desc += method + " " + path + " before=" + b + " after=" + a + (throws ? " throws" : "") + "; "; auto id = std::to_string(e);
        for (std::size_t i = 0; i < p.kinds.size() && ok; ++i) if (p.kinds[i] & 1) { want.push_back("b" + id + "." + std::to_string(i)); ok = b[i] == '1'; if (!ok) body = "?"; }
        vetoes += !ok;
        if (ok) { want.push_back("h" + id); if (throws && p.path != "/lvalue") { ends = true; break; } body = "handled " + id; }
        bool go = true; for (std::size_t i = 0; i < p.kinds.size() && go; ++i) if (p.kinds[i] & 2) { want.push_back("a" + id + "." + std::to_string(i)); go = a[i] == '1'; }
        if (ok) bodies.push_back(body);
    }
    auto frags = nt::split(g, wire, nt::crlfs(wire)); g.describe(desc); g.nontrivial(vetoes > 0 && n > 1);
    nt::Duplex d; std::atomic_bool run{true}; d.feed(frags, nt::End::HalfClose); nt::serve<Long>(d, r, run); auto out = d.received(); std::size_t pos = 0; std::vector<std::string> got;
    auto join = [](auto const& v) { std::string s; for (auto& e : v) s += e + " "; return s; };
    PBT_EQ(join(g_log), join(want), "calls made for " << desc);
    try { while (pos < out.size()) { auto m = nt::readMsg(out, pos, true); if (m.body.substr(0, 4) != "veto") got.push_back(m.body); } } catch (nt::Bad const& b) { PBT_FAIL("responses: " << b.why); }
    PBT_EQ(join(got), join(bodies), "responses of the handlers that ran");
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N08",
        .rule = "41 endpoints with 0 to 5 interceptors (synchronous, coroutine, before only, after only, both, neither; literal, parameter, wildcard and not-found routes), every hook's outcome generated per request, several requests per connection; non-trivial: several requests and at least one veto",
        .assumptions = {"hooks do not throw"}},
        {{"chains", chains, 50000, 2000000, 40}});
}

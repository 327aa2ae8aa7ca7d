// technique: property-based testing: generated route tables and request paths served over a real connection, against a reference matcher over the set of patterns
// opt: -O1
#include <common/net.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;

struct Pattern { std::vector<std::string> seg; std::string text; int methods; };   // seg: literal, "{}" or "**"
static const char* const kMethods[] = {"GET", "POST", "PUT", "DELETE"};
static std::vector<std::pair<std::size_t, std::string>> segments(std::string const& p) { std::vector<std::pair<std::size_t, std::string>> r; std::size_t i = 0; while (i < p.size()) { if (p[i] == '/') { ++i; continue; } auto e = std::min(p.find('/', i), p.size()); r.emplace_back(i, p.substr(i, e - i)); i = e; } return r; }
// left to right, at each segment: literal, then parameter, then trailing wildcard, with backtracking
static int match(std::vector<Pattern> const& t, std::vector<int> cand, std::vector<std::string> const& s, std::size_t i) {
    if (i == s.size()) { for (int c : cand) if (t[(std::size_t)c].seg.size() == i) return c; return -1; }
    std::vector<int> lit, par; int wild = -1;
    for (int c : cand) { auto& g = t[(std::size_t)c].seg; if (g.size() <= i) continue; if (g[i] == "**") wild = c; else if (g[i] == "{}") par.push_back(c); else if (g[i] == s[i]) lit.push_back(c); }
    if (!lit.empty()) if (int r = match(t, lit, s, i + 1); r >= 0) return r;
    if (!par.empty()) if (int r = match(t, par, s, i + 1); r >= 0) return r;
    return wild;
}
static std::string frame(std::string const& s) { return std::to_string(s.size()) + ":" + s + ","; }
static std::string lit(Gen& g) { return g.chance(80, 100) ? g.oneof<std::string>({"a", "b", "ab", "home", "x"}) : g.strUpTo("abcXYZ01-._~", 6, 1); }

template <HttpMethod... M> static void addOne(Router<HttpIO>& r, Pattern const& p, std::size_t id, std::vector<int>& calls) {
    std::size_t params = 0; bool wild = false; for (auto& s : p.seg) { params += s == "{}"; wild = wild || s == "**"; }
    r.addEndpoint<M...>(p.text, [id, params, wild, &calls](Req& req, Res& res) -> coroutine::Task<> {
        ++calls[id]; std::string out = "#" + std::to_string(id) + " ";
        for (std::size_t i = 0; i < params; ++i) out += frame(req.getPathParam(i).template to<std::string>());
        if (wild) out += "**" + frame(std::string(req.getUniversalWildcardPath()));
        try { (void)req.getPathParam(params); out += "?param"; } catch (std::exception const&) {}
        if (!wild) { try { req.getUniversalWildcardPath(); out += "?wild"; } catch (std::exception const&) {} }
        co_await res.setStatusAndContent(Status::CODE_200, out).sendRes();
    });
}
static void add(Router<HttpIO>& r, Pattern const& p, std::size_t id, std::vector<int>& calls) {
    switch (p.methods) { case 1: return addOne<GET>(r, p, id, calls); case 2: return addOne<POST>(r, p, id, calls); case 3: return addOne<GET, POST>(r, p, id, calls); case 4: return addOne<PUT>(r, p, id, calls); case 6: return addOne<POST, PUT>(r, p, id, calls); case 8: return addOne<DEL>(r, p, id, calls); default: return addOne<GET, POST, PUT, DEL>(r, p, id, calls); }
}
static std::string slash(Gen& g) { return g.chance(88, 100) ? "/" : g.oneof<std::string>({"//", "///"}); }
static void route(Gen& g) {
    std::vector<Pattern> t; std::set<std::string> shapes; std::size_t n = 1 + g.size(9); std::string desc;
    for (std::size_t k = 0; k < n; ++k) {
        Pattern p; std::size_t len = g.size(5);
        for (std::size_t i = 0; i < len; ++i) p.seg.push_back(g.chance(60, 100) ? lit(g) : "{}");
        if (g.chance(30, 100)) p.seg.push_back("**");
        p.methods = g.oneof({1, 1, 1, 2, 3, 4, 6, 8, 15}); std::string shape;
        for (auto& s : p.seg) { shape += "/" + s; p.text += "/" + (s == "{}" ? "{" + g.oneof<std::string>({"id", "name", "x", ""}) + "}" : s); } if (p.text.empty() || (g.chance(10, 100) && p.seg.back() != "**")) p.text += "/";
        bool clash = false; for (int m = 0; m < 4; ++m) if (p.methods >> m & 1) clash = clash || !shapes.insert(std::string(kMethods[m]) + shape).second;
        if (clash) continue;
        desc += p.text + "(" + std::to_string(p.methods) + ") "; t.push_back(p);
    }
    if (t.empty()) pbt::discard();
    // requests: instances of the patterns, mutated
    struct Q { std::string method, path, query; int want; }; std::vector<Q> qs; std::size_t m = 1 + g.size(8); std::string wire; std::size_t hits = 0; std::set<int> kinds;
    for (std::size_t k = 0; k < m; ++k) {
        Q q; auto const& base = g.pick(t); std::vector<std::string> s;
        auto any = [&]() -> std::string { return g.chance(50, 100) ? lit(g) : g.chance(15, 100) ? g.oneof<std::string>({"**", "*", "{id}", "{}", "***", "{", "***x"}) : g.strUpTo("abcXYZ019-._~!$&'()*+,;=:@%", 8, 1); };
        for (auto& e : base.seg) if (e == "{}") s.push_back(any()); else if (e == "**") { std::size_t c = 1 + g.draw(3); for (std::size_t i = 0; i < c; ++i) s.push_back(any()); } else s.push_back(e);
        if (!s.empty() && g.chance(25, 100)) s[g.draw(s.size())] = any(); if (g.chance(12, 100)) s.push_back(any()); if (!s.empty() && g.chance(12, 100)) s.pop_back();
        for (auto& e : s) q.path += slash(g) + e; if (q.path.empty() || g.chance(10, 100)) q.path += "/";
        if (g.chance(35, 100)) q.query = "?" + g.strUpTo("ab=&/?{}*", 10);
        int b = base.methods; do q.method = kMethods[g.draw(4)]; while (g.chance(85, 100) && [&] { for (int i = 0; i < 4; ++i) if (q.method == kMethods[i]) return !(b >> i & 1); return false; }());
        if (g.chance(3, 100)) q.method = g.oneof<std::string>({"HEAD", "*", "**", "get"});
        std::vector<int> cand; for (std::size_t i = 0; i < t.size(); ++i) for (int j = 0; j < 4; ++j) if (q.method == kMethods[j] && (t[i].methods >> j & 1)) cand.push_back((int)i);
        std::vector<std::string> segs; for (auto& [p, e] : segments(q.path)) segs.push_back(e);
        q.want = match(t, cand, segs, 0); hits += q.want >= 0; kinds.insert(q.want);
        wire += q.method + " " + q.path + q.query + " HTTP/1.1\r\nX: y\r\n\r\n"; desc += "| " + q.method + " " + q.path + q.query + " -> " + std::to_string(q.want) + " "; qs.push_back(q);
    }
    auto frags = nt::split(g, wire, nt::crlfs(wire)); bool ownNotFound = g.chance(30, 100);
    g.describe(desc); g.nontrivial(hits > 0 && kinds.size() > 1 && t.size() > 1);
    Router<HttpIO> r; std::vector<int> calls(t.size(), 0), want(t.size(), 0); std::vector<std::size_t> order(t.size()); for (std::size_t i = 0; i < t.size(); ++i) order[i] = i; for (std::size_t i = t.size(); i > 1; --i) std::swap(order[i - 1], order[g.draw(i)]);
    for (auto i : order) add(r, t[i], i, calls);
    int missed = 0, wantMissed = 0; if (ownNotFound) r.setErrorEndpointFunc([&missed](Req& req, Res& res) -> coroutine::Task<> { ++missed; co_await res.setStatusAndContent(Status::CODE_404, "none " + std::string(req.getReqPath())).sendRes(); });
    nt::Duplex d; std::atomic_bool run{true}; d.feed(frags, nt::End::HalfClose); nt::serve<Long>(d, r, run); auto out = d.received(); std::size_t pos = 0;
    try {
        for (auto& q : qs) {
            PBT_CHECK(pos < out.size(), "no response to " << q.method << " " << q.path << q.query); bool head = q.method == "HEAD"; auto msg = nt::readMsg(out, pos, true, head); auto what = q.method + " " + quote(q.path + q.query) + " was answered by " + quote(msg.start + " " + msg.body, 200);
            if (q.want < 0) { PBT_CHECK(msg.start.substr(0, 13) == "HTTP/1.1 404 ", what << " but no route matches"); ++wantMissed; if (ownNotFound && !head) PBT_EQ(msg.body, "none " + q.path + q.query, "not-found handler"); continue; }
            ++want[(std::size_t)q.want]; auto const& p = t[(std::size_t)q.want]; auto segs = segments(q.path); std::string exp = "#" + std::to_string(q.want) + " "; 
            PBT_CHECK(msg.start == "HTTP/1.1 200 OK" && (head || msg.body.substr(0, exp.size()) == exp), what << " instead of route " << p.text);
            for (std::size_t i = 0; i < p.seg.size(); ++i) if (p.seg[i] == "{}") exp += frame(segs[i].second);
            if (head) { PBT_CHECK(msg.body.empty() && std::stoul(msg.head["content-length"]) >= exp.size(), what << ", announcing " << msg.head["content-length"] << " bytes"); continue; }
            if (p.seg.empty() || p.seg.back() != "**") { PBT_EQ(msg.body, exp, what); continue; }
            // the remainder of the path from its first segment; a leading slash is kept or not
            auto rest = q.path.substr(segs[p.seg.size() - 1].first); PBT_CHECK(msg.body == exp + "**" + frame(rest) || msg.body == exp + "**" + frame("/" + rest), what << ", expected parameters " << quote(exp) << " and remainder " << quote(rest));
        }
    } catch (nt::Bad const& b) { PBT_FAIL("not a well-formed response: " << b.why << " in " << quote(out, 300)); }
    PBT_EQ(calls, want, "times each handler ran"); if (ownNotFound) PBT_EQ(missed, wantMissed, "times the not-found handler ran"); PBT_CHECK(pos == out.size(), "more responses than requests");
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N07",
        .rule = "tables of up to 10 overlapping patterns over literals, parameters and wildcards registered in a generated order for one or several methods; requests instantiated from the patterns and mutated, with queries, repeated slashes and segments that look like patterns, several per connection; non-trivial: several routes, at least one hit, at least two different outcomes",
        .assumptions = {"patterns consist of whole literal segments, {name} segments and an optional final **", "two routes of one method do not have the same shape"}},
        {{"route", route, 60000, 1500000, 40}});
}

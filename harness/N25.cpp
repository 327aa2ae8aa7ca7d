// technique: property-based testing with injected faults: files that are appended to, truncated, rewritten, removed or replaced by a directory at generated points while they are sent, to a server connection with pipelined requests; the byte stream is judged by an independent reader against every content the file has had
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/server/ConnectionHandler.hpp>
#include <sys/stat.h>
#include <dirent.h>
#include <mutex>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using u64 = std::uint64_t;
using Q = HttpRequest<HttpIO>; using S = HttpResponse<HttpIO>;

enum class Kind { Append, Truncate, Rewrite, Unlink, Dir, PeerGone };
struct Change { Kind kind; std::size_t at = 0; u64 n = 0; };
static char const* name(Kind k) { constexpr char const* n[]{"append", "truncate to", "rewrite", "unlink", "replace by a directory", "peer closes"}; return n[(int)k]; }
static int openFds() { int n = 0; DIR* d = ::opendir("/proc/self/fd"); while (::readdir(d)) ++n; ::closedir(d); return n; }
// Every content the file has had. No content holds a letter of "HTTP", a line end or a dash, so framing never looks like content.
struct File {
    std::string path; std::vector<std::string> states; bool gone = false, cut = false; int round = 0;
    static char ch(u64 i, int r) { return r == 0 ? char('a' + (i * 7 + i / 26) % 20) : r % 2 ? char('0' + (i * 3 + i / 10 + (u64)r) % 10) : char('A' + (i + (u64)r) % 6); }
    void write(std::string const& s, int flags) { int fd = ::open(path.c_str(), flags | O_WRONLY | O_CLOEXEC, 0600); if (fd < 0) return; std::size_t o = 0; while (o < s.size()) { auto n = ::write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += (std::size_t)n; } ::close(fd); }
    void create(u64 n) { std::string s(n, 0); for (u64 i = 0; i < n; ++i) s[i] = ch(i, 0); write(s, O_CREAT | O_TRUNC); states = {s}; }
    void apply(Change const& c) {
        if (gone) return;
        ++round; auto s = states.back();
        switch (c.kind) {
        case Kind::Append: { std::string t(c.n, 0); for (u64 i = 0; i < c.n; ++i) t[i] = ch(s.size() + i, round); s += t; states.push_back(s); write(t, O_APPEND); break; }
        case Kind::Truncate: { auto n = std::min<u64>(c.n, s.size()); s.resize(n); states.push_back(s); cut = true; if (::truncate(path.c_str(), (off_t)n)) {} break; }
        case Kind::Rewrite: { for (u64 i = 0; i < s.size(); ++i) s[i] = ch(i, round); states.push_back(s); write(s, 0); break; }
        case Kind::Unlink: ::unlink(path.c_str()); gone = true; break;
        case Kind::Dir: ::unlink(path.c_str()); ::mkdir(path.c_str(), 0700); gone = true; break;
        case Kind::PeerGone: break;
        }
    }
    // a read that meets a truncation may see zeros where the file ended
    bool had(u64 o, char c) const { if (cut && !c) return true; for (auto const& s : states) if (o < s.size() && s[o] == c) return true; return false; }
    u64 shortest() const { u64 m = ~0ull; for (auto const& s : states) m = std::min<u64>(m, s.size()); return m; }
};
// A reader that stops where the bytes stop
struct Cursor { std::string_view w; std::size_t p = 0; bool cut = false;
    std::optional<std::string> line() { auto e = w.find("\r\n", p); if (e == w.npos) { cut = true; return {}; } std::string r(w.substr(p, e - p)); p = e + 2; return r; }
    bool fixed(std::string_view s) { auto k = std::min(s.size(), w.size() - p); if (w.substr(p, k) != s.substr(0, k)) return false; p += k; if (k < s.size()) cut = true; return true; }
    std::optional<std::map<std::string, std::string>> fields() { std::map<std::string, std::string> h; for (;;) { auto l = line(); if (!l) return {}; if (l->empty()) return h; auto c = l->find(':'); PBT_CHECK(c != l->npos, "field line " << quote(*l, 80)); auto v = l->substr(c + 1); v.erase(0, std::min(v.find_first_not_of(" \t"), v.size())); h[nt::low(l->substr(0, c))] = v; } }
    // up to n bytes of the file, from its offset `from`
    void content(File const& f, u64 from, u64 n) { u64 k = std::min<u64>(n, w.size() - p); for (u64 i = 0; i < k; ++i) PBT_CHECK(f.had(from + i, w[p + i]), "byte " << from + i << " of the file arrived as " << quote(w.substr(p + i, 30)) << ", which the file never held there"); p += k; if (k < n) cut = true; }
};
static u64 num(std::map<std::string, std::string>& h, char const* k) { auto const& v = h[k]; PBT_CHECK(!v.empty() && v.find_first_not_of("0123456789") == v.npos, k << " is " << quote(v)); return std::stoull(v); }

struct Plan { int how = 0; u64 size = 0; std::vector<Change> before, during; std::vector<std::pair<u64, u64>> ranges; int sndbuf = 0; std::size_t step = 0; };   // how: 0 whole, 1 range, 2 ranges, 3 chunked
static u64 aSize(Gen& g) { return g.chance(45, 100) ? g.size(3000) : g.sizeNear({131072, 131072 * 2, 65536}, g.chance(25, 100) ? 600000 : 200000); }
static Plan makePlan(Gen& g, bool upload) {
    Plan p; p.how = upload ? 3 : (int)g.draw(4); p.size = aSize(g);
    if (p.how == 1 || p.how == 2) { if (!p.size) p.size = 1 + g.draw(500); std::size_t n = p.how == 1 ? 1 : 2 + g.draw(2); for (std::size_t i = 0; i < n; ++i) { u64 a = g.draw(p.size), b = a + g.draw(p.size - a); p.ranges.push_back({a, b}); } }
    auto change = [&](bool during) {
        Change c; switch (g.draw(during ? 9 : 5)) { case 0: c.kind = g.boolean() ? Kind::Unlink : Kind::Dir; break; case 1: case 5: case 6: c.kind = Kind::Append; break; case 2: case 7: c.kind = Kind::Truncate; break; case 3: c.kind = Kind::Rewrite; break; case 8: c.kind = Kind::PeerGone; break; default: c.kind = Kind::Truncate; }
        c.n = c.kind == Kind::Append ? 1 + (g.boolean() ? g.draw(300) : g.draw(200000)) : c.kind == Kind::Truncate ? (g.boolean() ? g.draw(p.size + 1) : p.size - std::min<u64>(p.size, g.draw(200))) : 0;
        c.at = during ? g.chance(30, 100) ? g.draw(300) : (std::size_t)g.draw(p.size + 200) : 0; return c; };
    if (g.chance(10, 100)) p.before.push_back(change(false));
    for (std::size_t i = 0, n = 1 + g.draw(3); i < n; ++i) p.during.push_back(change(true));
    std::stable_sort(p.during.begin(), p.during.end(), [](auto& a, auto& b) { return a.at < b.at; });
    p.sndbuf = g.oneof({4608, 10000, 60000}); p.step = g.oneof<std::size_t>({700, 4096, 20000, 65536}); return p;
}
static std::string show(Plan const& p) {
    constexpr char const* how[]{"whole", "range", "ranges", "chunked"}; std::string s = std::string(how[p.how]) + " of " + std::to_string(p.size) + " bytes"; for (auto [a, b] : p.ranges) s += " " + std::to_string(a) + "-" + std::to_string(b);
    for (auto& c : p.before) s += "; before: " + std::string(name(c.kind)) + " " + std::to_string(c.n);
    for (auto& c : p.during) s += "; after " + std::to_string(c.at) + " bytes: " + name(c.kind) + " " + std::to_string(c.n);
    return s + "; send buffer " + std::to_string(p.sndbuf) + ", reader " + std::to_string(p.step);
}
// reads everything, making the changes when enough has been seen
struct Reader { nt::Duplex& d; File& f; Plan const& p; std::string got; std::size_t made = 0; std::thread t; std::atomic<bool> stop{false}; bool left = false; std::vector<std::size_t> seen;
    void make() { while (made < p.during.size() && got.size() >= p.during[made].at && !left) { auto& c = p.during[made++]; if (c.kind == Kind::PeerGone) { left = true; ::shutdown(d.peer, SHUT_RDWR); } else f.apply(c); seen.push_back(got.size()); } }
    void start() { t = std::thread([this] { std::string b(p.step, 0); make(); while (!left) { pollfd q{d.peer, POLLIN, 0}; int r = ::poll(&q, 1, 5); if (!r) { if (stop) return; continue; } auto n = ::recv(d.peer, b.data(), b.size(), MSG_DONTWAIT); if (n > 0) { got.append(b.data(), (std::size_t)n); make(); continue; } if (n < 0 && (errno == EAGAIN || errno == EINTR)) continue; return; } }); }
    ~Reader() { stop = true; if (t.joinable()) t.join(); } };
static void verdict(Gen& g, Plan const& p, File const& f, Reader const& r, std::size_t firstEnd) {
    bool mid = false; for (auto s : r.seen) mid |= s > 0 && s < firstEnd; g.nontrivial(mid || !p.before.empty()); g.label(p.how == 0 ? "whole" : p.how == 1 ? "range" : p.how == 2 ? "ranges" : "chunked"); (void)f;
}
static void clean(File& f) { if (::unlink(f.path.c_str())) ::rmdir(f.path.c_str()); }

static void served(Gen& g) {
    auto p = makePlan(g, false); g.describe(show(p)); File f; f.path = pbt::scratch() + "/changing"; clean(f); f.create(p.size); auto first = f.states[0].size();
    for (auto& c : p.before) f.apply(c);
    Router<HttpIO> router; std::atomic_bool isRun{true};
    router.addEndpoint<GET>("/r", [&](Q& q, S& s) -> coroutine::Task<> { co_await s.useRangeTransferFile(q.getRangeRequestView(), f.path); });
    router.addEndpoint<GET>("/c", [&](Q&, S& s) -> coroutine::Task<> { co_await s.useChunkedEncodingTransferFile(f.path); });
    router.addEndpoint<GET>("/after", [&](Q&, S& s) -> coroutine::Task<> { s.setStatusAndContent(Status::CODE_200, "AFTER"); co_await s.sendRes(); });
    std::string wire = p.how == 3 ? "GET /c HTTP/1.1\r\n\r\n" : "GET /r HTTP/1.1\r\n"; if (p.how == 0) wire += "\r\n"; if (p.how == 1 || p.how == 2) { wire += "Range: bytes="; for (std::size_t i = 0; i < p.ranges.size(); ++i) wire += (i ? "," : "") + std::to_string(p.ranges[i].first) + "-" + std::to_string(p.ranges[i].second); wire += "\r\n\r\n"; }
    wire += "GET /after HTTP/1.1\r\n\r\n";
    { nt::Quiet q; } int fds = 0; std::string w; std::size_t end = 0; bool left = false;
    {
        nt::Duplex d(p.sndbuf); fds = openFds(); Reader r{d, f, p}; d.feed({wire}, nt::End::HalfClose); r.start(); nt::serve<Long>(d, router, isRun); r.t.join(); w = r.got; left = r.left;
        PBT_EQ(openFds(), fds - 1, "descriptors open after the connection has ended");
        bool known = f.gone || !p.before.empty();
        // the first message
        Cursor c{w}; bool whole = false, refused = false; u64 need = 0;
        auto start = c.line();
        if (start) {
            auto h = c.fields();
            if (h) {
                PBT_CHECK(start->starts_with("HTTP/1.1 200") || start->starts_with("HTTP/1.1 206") || start->starts_with("HTTP/1.1 416"), "status line " << quote(*start)); refused = start->starts_with("HTTP/1.1 416");
                if (p.how == 3) {
                    PBT_EQ((*h)["transfer-encoding"], std::string("chunked"), "coding"); u64 off = 0;
                    while (!c.cut) { auto l = c.line(); if (!l) break; PBT_CHECK(!l->empty() && l->find_first_not_of("0123456789abcdefABCDEF") == l->npos, "chunk size line " << quote(*l, 60) << " after " << off << " bytes"); auto n = std::stoull(*l, nullptr, 16); if (!n) { PBT_CHECK(c.fixed("\r\n"), "after the last chunk: " << quote(c.w.substr(c.p, 40))); break; } c.content(f, off, n); off += n; PBT_CHECK(c.fixed("\r\n"), "after a chunk: " << quote(c.w.substr(c.p, 40))); }
                } else {
                    auto len = num(*h, "content-length"); auto from = c.p;
                    if (refused) { PBT_EQ(len, (u64)0, "416"); }
                    else if (p.how == 0) { need = len; bool some = false; for (auto const& s : f.states) some |= s.size() == len; PBT_CHECK(some, "Content-Length " << len << " was never the size of the file"); c.content(f, 0, len); }
                    else if ((*h)["content-type"].starts_with("multipart/")) {
                        auto bd = (*h)["content-type"].substr((*h)["content-type"].find("boundary=") + 9);
                        std::size_t next = 0; bool last = false;   // the parts are those ranges, in order, which the file could satisfy when it was looked at
                        while (!c.cut && !last) {
                            PBT_CHECK(c.fixed("--"), "part start " << quote(c.w.substr(c.p, 60))); if (c.cut) break; auto l = c.line(); if (!l) break; if (*l == bd + "--") { last = true; break; } PBT_EQ(*l, bd, "boundary"); auto ph = c.fields(); if (!ph) break;
                            auto n = num(*ph, "content-length"); auto cr = (*ph)["content-range"]; bool found = false;
                            while (next < p.ranges.size() && !found) { auto [a, b] = p.ranges[next++]; found = n >= 1 && n <= b - a + 1 && cr.starts_with("bytes " + std::to_string(a) + "-" + std::to_string(a + n - 1) + "/"); if (found) { need = std::max(need, a + n); c.content(f, a, n); } }
                            PBT_CHECK(found, "part " << quote(cr) << " with " << n << " bytes answers none of the ranges"); if (!c.cut) PBT_CHECK(c.fixed("\r\n"), "after a part: " << quote(c.w.substr(c.p, 40))); }
                        PBT_CHECK(c.cut ? c.p - from < len : c.p - from == len, "multipart body of " << c.p - from << " bytes under Content-Length " << len);
                    } else { auto [a, b] = p.ranges[0]; if (p.ranges.size() > 1) { auto cr = (*h)["content-range"]; PBT_CHECK(cr.starts_with("bytes "), "content range " << quote(cr)); a = std::stoull(cr.substr(6)); } PBT_CHECK(len <= p.size, "length " << len); need = a + len; c.content(f, a, len); (void)b; }
                }
                whole = !c.cut;
            }
        }
        end = c.p; if (!start || c.cut) end = w.size() + 1;
        verdict(g, p, f, r, end);
        if (left) { PBT_CHECK(c.p <= w.size(), "cursor"); if (!whole) return clean(f); }
        if (!whole) {
            PBT_CHECK(c.p == w.size() || !start, "bytes follow a message that was given up: " << quote(std::string_view(w).substr(c.p), 100));
            PBT_CHECK(known || (f.shortest() < std::max<u64>(need, first)), "the response ended after " << w.size() << " bytes although the file never became shorter: " << quote(w, 200));
        } else {
            auto rest = std::string_view(w).substr(c.p); std::size_t pos = 0;
            if (left || (rest.empty() && f.gone)) { return clean(f); }   // with nothing of the file to send, finding it gone ends the connection
            try { auto m = nt::readMsg(rest, pos, true); PBT_EQ(m.start, std::string("HTTP/1.1 200 OK"), "the response after the file"); PBT_EQ(m.body, std::string("AFTER"), "the response after the file"); } catch (nt::Bad const& b) { PBT_FAIL("after the file: " << b.why << " in " << quote(rest, 200)); }
            PBT_CHECK(pos == rest.size(), "bytes follow the last message: " << quote(rest.substr(pos), 100));
        }
    }
    clean(f);
}
static void uploaded(Gen& g) {
    auto p = makePlan(g, true); g.describe("upload: " + show(p)); File f; f.path = pbt::scratch() + "/changing"; clean(f); f.create(p.size); for (auto& c : p.before) f.apply(c);
    nt::Duplex d(p.sndbuf); Reader r{d, f, p}; bool threw = false; int fds = openFds(); std::size_t first = 0;
    { r.start(); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; { Q req{io}; req.setReqLine<POST>("/up"); try { loop.sync(req.sendChunkedReq<Long>(f.path)); } catch (std::exception const&) { threw = true; } } if (!threw) { Q req{io}; req.setReqLine<GET>("/next"); try { loop.sync(req.sendHttpReq<Long>()); } catch (std::exception const&) { PBT_CHECK(r.left || p.during.back().kind == Kind::PeerGone || std::any_of(p.during.begin(), p.during.end(), [](auto& c) { return c.kind == Kind::PeerGone; }), "a request after the upload failed"); } } ::shutdown(d.lib, SHUT_WR); r.t.join(); }
    PBT_EQ(openFds(), fds, "descriptors open after the upload"); auto const& w = r.got; Cursor c{w}; auto start = c.line(); bool whole = false;
    if (start) { PBT_EQ(*start, std::string("POST /up HTTP/1.1"), "request line"); if (auto h = c.fields()) { PBT_EQ((*h)["transfer-encoding"], std::string("chunked"), "coding"); u64 off = 0;
        while (!c.cut) { auto l = c.line(); if (!l) break; PBT_CHECK(!l->empty() && l->find_first_not_of("0123456789abcdefABCDEF") == l->npos, "chunk size line " << quote(*l, 60)); auto n = std::stoull(*l, nullptr, 16); if (!n) { PBT_CHECK(c.fixed("\r\n"), "after the last chunk"); break; } c.content(f, off, n); off += n; PBT_CHECK(c.fixed("\r\n"), "after a chunk"); } whole = !c.cut; } }
    first = whole ? c.p : w.size() + 1; verdict(g, p, f, r, first);
    if (!r.left) { PBT_CHECK(whole == !threw, "the upload " << (threw ? "failed" : "succeeded") << " but its message is " << (whole ? "whole" : "cut")); if (threw) PBT_CHECK(f.gone || !p.before.empty(), "the upload failed although the file stayed"); else PBT_CHECK(w.substr(c.p).starts_with("GET /next HTTP/1.1\r\n"), "after the upload: " << quote(w.substr(c.p), 80)); }
    clean(f);
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N25",
        .rule = "files of 0 bytes to several file blocks, sent whole, as one or several ranges, with chunked coding or as a chunked upload to readers with small buffers, while one to three changes (append, truncate, rewrite, remove, replace by a directory, the peer leaving) happen after generated numbers of received bytes or before the request; a second request follows on the same connection; non-trivial: a change happened before the request or after the first and before the last byte of the message",
        .assumptions = {"the bytes sent are judged against every content the file has had, not against one snapshot"}},
        {{"served", served, 30000, 900000, 40, true}, {"uploaded", uploaded, 15000, 400000, 40, true}});
}

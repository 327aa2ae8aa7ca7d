// technique: property-based testing: generated hosts, services, repeated and failing resolutions, listening sockets and system results, against independently built addresses, real connections and errno
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/socket/AddressResolver.hpp>
#include <HXLibs/net/server/Acceptor.hpp>
#include <HXLibs/net/router/Router.hpp>
#include <arpa/inet.h>
#include <netdb.h>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
static std::size_t fds() { std::size_t n = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++n; } return n; }
// a view that is not terminated: the characters behind it would change its meaning
struct Slice { std::unique_ptr<char[]> b; std::size_t n; Slice(std::string const& s, std::string const& junk, bool exact) : b(new char[s.size() + (exact ? 0 : junk.size() + 1)]), n(s.size()) { std::memcpy(b.get(), s.data(), s.size()); if (!exact) std::memcpy(b.get() + n, junk.c_str(), junk.size() + 1); } std::string_view view() const { return {b.get(), n}; } };
struct Host { std::string text; int family; unsigned char addr[16]; };
static std::string v4(unsigned char const* a) { return std::to_string(a[0]) + "." + std::to_string(a[1]) + "." + std::to_string(a[2]) + "." + std::to_string(a[3]); }
static Host host(Gen& g) {
    Host h{}; 
    if (g.chance(60, 100)) { h.family = AF_INET; for (int i = 0; i < 4; ++i) h.addr[i] = (unsigned char)g.oneof<unsigned>({(unsigned)g.draw(256), 0u, 1u, 127u, 255u}); h.text = v4(h.addr); if (g.chance(10, 100)) { h.text = "127.0.0.1"; h.addr[0] = 127; h.addr[1] = h.addr[2] = 0; h.addr[3] = 1; } }
    else { h.family = AF_INET6; for (auto& c : h.addr) c = g.boolean() ? 0 : (unsigned char)g.draw(256); h.addr[0] = 0x20; char b[64];
        switch (g.draw(3)) {
        case 0: ::inet_ntop(AF_INET6, h.addr, b, sizeof b); h.text = b; break;
        case 1: for (int i = 0; i < 16; i += 2) { std::snprintf(b, sizeof b, "%s%04X", i ? ":" : "", h.addr[i] << 8 | h.addr[i + 1]); h.text += b; } break;
        default: for (int i = 0; i < 12; i += 2) { std::snprintf(b, sizeof b, "%x:", h.addr[i] << 8 | h.addr[i + 1]); h.text += b; } h.text += v4(h.addr + 12); break;
        } }
    return h;
}
struct Service { std::string text; unsigned port; };
static Service service(Gen& g) { static std::vector<Service> const named = [] { std::vector<Service> v; for (auto n : {"http", "https", "ssh", "ftp", "smtp", "telnet"}) if (auto* e = ::getservbyname(n, "tcp")) v.push_back({n, ntohs((std::uint16_t)e->s_port)}); return v; }();
    if (!named.empty() && g.chance(20, 100)) return named[g.draw(named.size())]; unsigned p = (unsigned)g.oneof<std::uint64_t>({g.draw(65536), g.draw(100), 80, 443, 65535, 1, 256, 8080}); return {std::to_string(p), p}; }
static std::string verdict(AddressResolver::AddressInfo e, Host const& h, Service const& s) {       // walks every entry
    std::size_t n = 0, streams = 0; if (!e._curr) return "no entry";
    do {
        auto r = e.getAddress(); ++n; if (e._curr->ai_socktype == SOCK_STREAM) ++streams; if (n > 50) return "too many entries"; if (e._curr->ai_family != h.family) return "an entry of another family";
        if (r._addr->sa_family != h.family) return "an address of another family";
        if (h.family == AF_INET) { auto* a = (sockaddr_in*)r._addr; if (r._addrlen != sizeof *a) return "wrong length"; if (std::memcmp(&a->sin_addr, h.addr, 4)) return std::string("another address: ") + ::inet_ntoa(a->sin_addr); if (ntohs(a->sin_port) != s.port) return "another port: " + std::to_string(ntohs(a->sin_port)); }
        else { auto* a = (sockaddr_in6*)r._addr; if (r._addrlen != sizeof *a) return "wrong length"; char b[64]; if (std::memcmp(&a->sin6_addr, h.addr, 16)) return std::string("another address: ") + ::inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b); if (ntohs(a->sin6_port) != s.port) return "another port: " + std::to_string(ntohs(a->sin6_port)); }
    } while (e.nextEntry());
    return streams ? "" : "no stream entry";
}
struct Step { Host h; Service s; bool bad; std::string badService, jh, js; bool exact, move; };
static void resolve(Gen& g) {
    std::vector<Step> steps; std::size_t n = 1 + g.draw(5), ok = 0; std::string d;
    for (std::size_t i = 0; i < n; ++i) { Step s{host(g), service(g), g.chance(20, 100), g.oneof<std::string>({"-1", "no-such-service", "80 ", "8080x", "http/"}), g.oneof<std::string>({"9", ".1", ":1", "x", "%lo", "/24"}), g.oneof<std::string>({"0", "1", "s", " ", "x"}), g.boolean(), g.chance(25, 100)}; if (!s.bad) ++ok; d += (s.move ? "move; " : "") + quote(s.h.text) + " " + quote(s.bad ? s.badService : s.s.text) + (s.exact ? "" : " followed by " + quote(s.jh) + " " + quote(s.js)) + "; "; steps.push_back(std::move(s)); }
    g.describe(d); g.nontrivial(ok >= 1);
    std::string fail; std::size_t size[3]{};
    for (int round = 0; round < 3; ++round) {       // the first round fills the C library's caches
        {
            auto r = std::make_unique<AddressResolver>(); AddressResolver::AddressInfo last{}; Step const* of = nullptr;
            for (auto& s : steps) {
                if (s.move) { auto q = std::make_unique<AddressResolver>(std::move(*r)); r = std::move(q); }
                Slice hs(s.h.text, s.jh, s.exact), ss(s.bad ? s.badService : s.s.text, s.js, s.exact); bool threw = false; std::string what; AddressResolver::AddressInfo e{};
                try { e = r->resolve(hs.view(), ss.view()); } catch (std::system_error const& x) { threw = true; what = x.what(); if (x.code().category() != exception::LinuxErrorHandlingTools::gaiCategory() || x.code().value() == 0) fail = "the error has another category or no code"; else if (what.find(s.h.text + ":" + s.badService) == std::string::npos) fail = "the error does not name what was asked for: " + what; }
                if (threw != s.bad) fail = threw ? "resolution failed: " + what : "an unknown service was accepted";
                if (fail.empty() && !threw) { fail = verdict(e, s.h, s.s); last = e; of = &s; }
                if (fail.empty() && threw && of && !s.move) { fail = verdict(last, of->h, of->s); if (!fail.empty()) fail = "after a failed resolution the earlier result is " + fail; }
                if (!fail.empty()) { fail += " (" + quote(s.h.text) + " " + quote(s.bad ? s.badService : s.s.text) + ")"; break; }
            }
        }
        if (!fail.empty()) break; size[round] = __sanitizer_get_current_allocated_bytes();
    }
    if (!fail.empty()) PBT_FAIL(fail);
    PBT_CHECK(size[1] == 0 || size[2] <= size[1], "each round of resolutions leaves " << size[2] - size[1] << " more bytes allocated");
}
static void listening(Gen& g) {
    unsigned char a[4] = {127, (unsigned char)g.draw(256), (unsigned char)g.draw(256), (unsigned char)(1 + g.draw(254))}; enum { Good, Foreign, Busy } how = g.oneof<decltype(how)>({Good, Good, Foreign, Busy}); bool acceptor = g.boolean(); auto ip = v4(a); if (how == Foreign) { a[0] = 203; a[1] = 0; a[2] = 113; ip = v4(a); }
    sockaddr_in sa{}; sa.sin_family = AF_INET; std::memcpy(&sa.sin_addr, a, 4); int holder = -1; unsigned port = 0;
    { int s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); PBT_CHECK(s >= 0, "socket"); sockaddr_in x = sa; if (how == Foreign) x.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (::bind(s, (sockaddr*)&x, sizeof x) || (how == Busy && ::listen(s, 1))) { ::close(s); pbt::discard(); } socklen_t l = sizeof x; ::getsockname(s, (sockaddr*)&x, &l); port = ntohs(x.sin_port); if (how == Busy) holder = s; else ::close(s); }
    std::size_t conns = 1 + g.draw(4); g.describe(ip + ":" + std::to_string(port) + (how == Good ? ", free" : how == Foreign ? ", not an address of this machine" : ", taken") + (acceptor ? ", server" : ", plain") + ", " + std::to_string(conns) + " connections"); g.nontrivial(how != Good || conns > 1); sa.sin_port = htons((std::uint16_t)port);
    nt::Quiet quiet; auto before = fds(); int want = how == Foreign ? EADDRNOTAVAIL : how == Busy ? EADDRINUSE : 0, got = 0; std::string what;
    auto connect = [&](std::size_t i) { int c = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (::connect(c, (sockaddr*)&sa, sizeof sa)) { int e = errno; ::close(c); PBT_FAIL("connection " << i << " to " << ip << ":" << port << " failed: " << std::strerror(e)); } return c; };
    { AddressResolver r; auto e = r.resolve(ip, std::to_string(port));
    if (!acceptor) {
        int s = -1; try { s = e.createSocketAndBind(); } catch (std::system_error const& x) { got = x.code().value(); what = x.what(); PBT_CHECK(x.code().category() == std::system_category(), "the error has another category"); }
        if (s >= 0 && want == 0) { std::vector<int> cs; for (std::size_t i = 0; i < conns; ++i) cs.push_back(connect(i)); sockaddr_in x{}; socklen_t l = sizeof x; ::getsockname(s, (sockaddr*)&x, &l); PBT_CHECK(!std::memcmp(&x.sin_addr, a, 4) && ntohs(x.sin_port) == port, "the socket is bound to another address"); for (std::size_t i = 0; i < conns; ++i) { int f = ::accept4(s, nullptr, nullptr, SOCK_CLOEXEC); PBT_CHECK(f >= 0, "accept failed"); ::close(f); } for (int c : cs) ::close(c);
            int s2 = -1; try { s2 = e.createSocketAndBind(); } catch (std::system_error const& z) { PBT_FAIL("a second socket could not share the port: " << z.what()); } ::close(s2); }
        if (s >= 0) ::close(s);
    } else {
        coroutine::EventLoop loop; Router<HttpIO> router; router.addEndpoint<HttpMethod::GET>("/x", [](HttpRequest<HttpIO>&, HttpResponse<HttpIO>& res) -> coroutine::Task<> { co_await res.setStatusAndContent(Status::CODE_200, "yes").sendRes(); }); std::atomic_bool run{true}; bool listening = false; Acceptor<HttpIO> acc{router, loop, e}; std::vector<int> cs; std::string pending;
        auto t = acc.start<decltype(5_s)>(run, [&] { listening = true; if (want) return; try { for (std::size_t i = 0; i < conns; ++i) { cs.push_back(connect(i)); std::string q = "GET /x HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n"; if (::send(cs.back(), q.data(), q.size(), MSG_NOSIGNAL) != (ssize_t)q.size()) pending = "send"; } } catch (pbt::Failure const& f) { pending = f.msg; } if (conns == 1 || !pending.empty()) run = false; });
        std::thread stop; if (want == 0 && conns > 1) stop = std::thread([&] { for (std::size_t i = 0; i + 1 < conns; ++i) { std::string r; char b[512]; for (int k = 0; k < 500 && cs.size() != conns; ++k) std::this_thread::sleep_for(std::chrono::milliseconds(10)); if (cs.size() != conns) break; for (ssize_t n; (n = ::recv(cs[i], b, sizeof b, 0)) > 0;) r.append(b, (std::size_t)n); if (r.find("yes") == std::string::npos) pending = "connection " + std::to_string(i) + " got " + quote(r); if (i + 2 == conns) break; } run = false; int c = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); ::connect(c, (sockaddr*)&sa, sizeof sa); ::close(c); });
        auto res = loop.trySync(std::move(t)); if (stop.joinable()) stop.join(); for (int c : cs) ::close(c);
        if (!res.isVal()) { try { res.rethrow(); } catch (std::system_error const& x) { got = x.code().value(); what = x.what(); PBT_CHECK(x.code().category() == std::system_category(), "the error has another category"); } }
        PBT_EQ(listening, want == 0, "whether the server reported that it listens"); if (!pending.empty()) PBT_FAIL(pending);
    } }
    PBT_CHECK(got == want, (want ? "binding to an unusable address " : "binding ") << (got ? "failed: " + what : "succeeded")); PBT_EQ(fds(), before, "open file descriptors afterwards"); if (holder >= 0) ::close(holder);
}
template <typename F> static int codeOf(F&& f, std::string* what = nullptr) { try { f(); return 0; } catch (std::system_error const& x) { if (what) *what = x.what(); return x.code().category() == std::system_category() ? x.code().value() : -1; } }
static void errors(Gen& g) {
    using L = exception::LinuxErrorHandlingTools; int e = 1 + (int)g.draw(133); long v = g.boolean() ? (long)g.draw(1000) : (long)g.draw(1ull << 31) ; auto tag = "op" + std::to_string(g.draw(100)); g.describe("errno " + std::to_string(e) + ", value " + std::to_string(v)); g.nontrivial(true); std::string what; int out = -7;
    PBT_EQ(codeOf([&] { exception::IoUringErrorHandlingTools::check(-e); }), e, "check of a failure"); PBT_EQ(codeOf([&] { out = exception::IoUringErrorHandlingTools::check((int)v); }), 0, "check of a value"); PBT_EQ(out, (int)v, "value through check");
    errno = e; auto bad = L::convertError<int>(-1); errno = e; auto good = L::convertError<int>((int)v); auto wide = L::convertError<std::size_t>((ssize_t)v);
    PBT_EQ(bad.error(), e, "error()"); PBT_EQ(good.error(), 0, "error() of a value"); PBT_CHECK(bad.isError(e) && !bad.isError(e + 1) && (v == 0 || !good.isError(e)), "isError"); PBT_EQ(bad.errorCode().value(), e, "errorCode()"); PBT_CHECK(!good.errorCode(), "errorCode() of a value");
    PBT_EQ(codeOf([&] { bad.expect(tag.c_str()); }, &what), e, "expect of a failure"); PBT_CHECK(what.find(tag) != std::string::npos, "the error does not carry the hint: " << what); PBT_EQ(codeOf([&] { bad.value(); }), e, "value of a failure"); PBT_EQ(good.expect("x"), (int)v, "expect of a value"); PBT_EQ(good.value(), (int)v, "value of a value"); PBT_EQ(wide.value(), (std::size_t)v, "unsigned value");
    PBT_EQ(codeOf([&] { errno = e; L::checkError(tag.c_str(), -1); }, &what), e, "checkError of a failure"); PBT_CHECK(what.find(tag) != std::string::npos, "the error does not carry the hint: " << what); PBT_EQ(L::checkError("x", (int)v), (int)v, "checkError of a value");
    errno = EAGAIN; int r = 0; PBT_EQ(codeOf([&] { r = L::checkError<EAGAIN>("x", -1); }), 0, "an excepted error"); PBT_EQ(r, -1, "result of an excepted error"); if (e != EAGAIN) PBT_EQ(codeOf([&] { errno = e; L::checkError<EAGAIN>("x", -1); }), e, "another error than the excepted one");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "N24", .rule = "resolve: at least one resolution that must succeed; listening: a failing bind or several connections; errors: all",
        .assumptions = {"numeric hosts and services from the system's services file, the C library resolves them correctly", "loopback addresses of 127.0.0.0/8 can be bound, 203.0.113.0/24 cannot"}, .quickCapS = 40},
        {{"resolve", resolve, 40000, 1000000, 20}, {"listening", listening, 2500, 60000, 20, true}, {"errors", errors, 20000, 200000}});
}

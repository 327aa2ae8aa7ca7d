// technique: property-based testing: generated proxy URLs, targets, credentials and proxy replies (granting, refusing, malformed, cut) in generated fragmentations, against an independent encoder of the handshakes
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
#include <HXLibs/net/client/HttpClient.hpp>
#include <openssl/evp.h>
#include <arpa/inet.h>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using namespace std::string_literals; using pbt::Gen; using pbt::quote;
static const std::map<std::string, int> kPorts{{"http", 80}, {"https", 443}, {"ws", 80}, {"wss", 443}, {"ftp", 21}};
struct Target { std::string url, host; int port; bool numeric; };
static Target target(Gen& g, bool web = false) {
    Target t; std::string scheme = web ? "http" : g.oneof<std::string>({"http", "https", "ws", "wss", "ftp"}); bool has = web || g.chance(90, 100); t.numeric = false;
    switch (g.draw(web ? 3 : 4)) {
    case 0: t.host = "localhost"; break; case 1: { t.host = std::to_string(g.draw(256)) + "." + std::to_string(g.draw(256)) + "." + std::to_string(g.draw(256)) + "." + std::to_string(g.draw(256)); t.numeric = true; break; }
    case 2: t.host = g.str("abcxyz019", 1 + g.draw(12)) + "." + g.strUpTo("abcxyz-09", 20, 1) + ".org"; break;
    default: { auto n = g.sizeNear({127, 128, 253, 254, 255, 256}, 300); for (std::size_t i = 0; i < n; ++i) t.host += i % 40 == 39 ? '.' : (char)('a' + (char)((i * 7) % 26)); if (t.host.empty()) t.host = "h"; } }
    t.port = kPorts.at(has ? scheme : "http"); std::string p; if (g.boolean()) { t.port = (int)g.oneof<unsigned>({1, 80, 255, 256, 443, 8080, 32768, 65535, (unsigned)(1 + g.draw(65535))}); p = ":" + std::to_string(t.port); }
    t.url = (has ? scheme + "://" : "") + t.host + p + g.oneof<std::string>({"", "/", "/a/b", "/x?y=1:2@3"}); return t;
}
struct Cred { bool has = false; std::string user, pass; };
static Cred cred(Gen& g, bool longOnes) { Cred c; if (!g.chance(60, 100)) return c; c.has = true; std::size_t max = longOnes && g.chance(30, 100) ? 300 : 20; auto n = max == 300 ? std::max<std::size_t>(1, g.sizeNear({127, 128, 129, 254, 255, 256}, 300)) : 1 + g.draw(max); c.user = g.str("abcXYZ019-._~!$&'()*+,;=", n); c.pass = g.str("abcXYZ019-._~!$&'()*+,;=:", max == 300 ? g.sizeNear({127, 128, 254, 255, 256}, 300) : g.draw(max)); return c; }
static std::string proxyUrl(Gen& g, Cred const& c, char const* scheme, std::string const& at) { (void)g; return std::string(scheme) + "://" + (c.has ? c.user + ":" + c.pass + "@" : "") + at; }
// the proxy side of a SOCKS5 handshake: what to expect, what to answer; `stop` ends the handshake with an error there
struct Stage { std::vector<std::string> expect; std::string reply; bool refuses = false; };
static std::vector<Stage> socksStages(Gen& g, Target const& t, Cred const& c, std::string& what) {
    std::vector<Stage> s; int fault = g.chance(45, 100) ? 1 + (int)g.draw(9) : 0; auto bad = [&](std::string w) { what = w; };
    { Stage a; char want = c.has ? 2 : 0; a.expect = {"\x05\x01"s + want}; a.reply = "\x05"s + want;
      if (fault == 1) { char m; do m = (char)g.oneof<int>({255, 0, 2, 1, 3, 128, 254}); while (m == want); a.reply[1] = m; a.refuses = true; bad("method " + std::to_string((unsigned char)m) + " chosen"); }
      if (fault == 2) { a.reply[0] = (char)g.oneof<int>({0, 4, 1, 'H', 255}); a.refuses = true; bad("another protocol version"); } s.push_back(a); if (a.refuses) return s; }
    if (c.has) { Stage a; a.expect = {"\x01"s + (char)c.user.size() + c.user + (char)c.pass.size() + c.pass}; a.reply = "\x01\x00"s; if (c.user.size() > 255 || c.pass.size() > 255) { a.expect = {}; a.reply.clear(); a.refuses = true; bad("credentials too long"); s.push_back(a); return s; }
      if (fault == 3) { a.reply[1] = (char)(1 + g.draw(255)); a.refuses = true; bad("authentication failure"); } s.push_back(a); if (a.refuses) return s; }
    { Stage a; std::string port{(char)(t.port >> 8), (char)t.port}; a.expect = {"\x05\x01\x00\x03"s + (char)t.host.size() + t.host + port}; if (t.numeric) { in_addr x{}; inet_pton(AF_INET, t.host.c_str(), &x); a.expect.push_back("\x05\x01\x00\x01"s + std::string((char*)&x, 4) + port); }
      if (t.host.size() > 255) { a.expect = {}; a.refuses = true; bad("host name too long"); s.push_back(a); return s; }
      a.reply = "\x05\x00\x00"s; switch (g.draw(3)) { case 0: a.reply += "\x01" + g.bytes(4); break; case 1: a.reply += "\x04" + g.bytes(16); break; default: { auto n = g.sizeNear({0, 1, 127, 128, 255}, 255); if (n > 255) n = 255; a.reply += "\x03"s + (char)n + g.bytes(n); } } a.reply += g.bytes(2);
      if (fault == 4 || fault == 5) { a.reply[1] = (char)(fault == 4 ? 1 + g.draw(8) : 1 + g.draw(255)); a.refuses = true; bad("request refused"); if (g.boolean()) a.reply = a.reply.substr(0, 3) + "\x01"s + std::string(6, '\0'); } 
      if (fault == 6) { a.reply[3] = (char)g.oneof<int>({0, 2, 5, 255}); a.refuses = true; bad("unknown address type"); }
      if (fault == 7) { a.reply[0] = (char)g.oneof<int>({0, 4, 1, 255}); a.refuses = true; bad("another version in the answer"); } s.push_back(a); if (a.refuses) return s; }
    if (fault >= 8) { std::size_t total = 0; for (auto& a : s) total += a.reply.size(); auto cut = g.draw(total); for (std::size_t i = 0; i < s.size(); ++i) { if (cut < s[i].reply.size()) { s[i].reply.resize(cut); s[i].refuses = true; s.resize(i + 1); bad("replies cut short"); return s; } cut -= s[i].reply.size(); } }
    return s;
}
static std::vector<Stage> httpStages(Gen& g, Target const& t, Cred const& c, std::string& what) {
    (void)t; (void)c; std::string status = "200", head; bool refuses = false; int fault = g.chance(45, 100) ? 1 + (int)g.draw(3) : 0;
    if (!fault && g.chance(25, 100)) status = g.oneof<std::string>({"201", "299", "204"}); if (fault == 1) { status = g.oneof<std::string>({"407", "403", "502", "400", "301", "500", "405", "199", "302", "020"}); refuses = true; what = "status " + status; }
    head = g.oneof<std::string>({"HTTP/1.1 ", "HTTP/1.1 ", "HTTP/1.0 "}) + status + g.oneof<std::string>({" Connection established", " OK", " ", " 200 OK", ""}) + "\r\n"; for (std::size_t i = 0, n = g.size(4); i < n; ++i) head += "X-" + std::to_string(i) + ": " + nt::fieldValue(g) + "\r\n"; if (refuses && g.boolean()) head += "Content-Length: 0\r\n"; head += "\r\n";
    if (fault == 2) { head = g.oneof<std::string>({"HTTX", "200 OK\r\n\r\n", "\x05\x00"s, "HTTP/1.1\r\n\r\n", "SSH-2.0-x\r\n\r\n", "\r\n\r\n"}); refuses = true; what = "no HTTP answer"; } if (fault == 3) { head.resize(g.draw(head.size() - 1)); refuses = true; what = "answer cut short"; }
    return {{{}, head, refuses}};
}
static std::string b64(std::string const& s) { std::string o(s.size() * 2 + 8, '\0'); int n = EVP_EncodeBlock((unsigned char*)o.data(), (unsigned char const*)s.data(), (int)s.size()); o.resize((std::size_t)n); return o; }
static void checkConnect(std::string const& msg, std::size_t& pos, Target const& t, Cred const& c) {
    try { auto m = nt::readMsg(msg, pos, false, true); auto a = t.host + ":" + std::to_string(t.port); PBT_EQ(m.start, "CONNECT " + a + " HTTP/1.1", "request to the proxy"); PBT_CHECK(m.head["host"] == a || m.head["host"] == t.host, "Host is " << quote(m.head["host"]) << " for " << t.url); if (m.head.count("content-length")) PBT_EQ(m.head["content-length"], "0"s, "body of CONNECT"); PBT_CHECK(!m.head.count("transfer-encoding"), "CONNECT with a body");
        if (c.has) PBT_EQ(m.head["proxy-authorization"], "Basic " + b64(c.user + ":" + c.pass), "credentials of " << c.user << ":" << c.pass); else PBT_CHECK(!m.head.count("proxy-authorization"), "credentials sent although there are none");
    } catch (nt::Bad const& b) { PBT_FAIL("the request to the proxy is malformed: " << b.why << " in " << quote(msg, 300)); }
}
template <class P, bool Socks> static void handshake(Gen& g) {
    auto t = target(g); auto c = cred(g, Socks); std::string what; auto stages = Socks ? socksStages(g, t, c, what) : httpStages(g, t, c, what); auto url = proxyUrl(g, c, Socks ? "socks5" : "http", "127.0.0.1:2333"); bool fails = stages.back().refuses; if (!fails && (c.user.size() > 255)) pbt::discard();
    std::string in = fails ? "" : g.blob(g.size(60)), outData = g.blob(g.size(60)); bool lock = g.boolean(); std::string all; for (auto& s : stages) all += s.reply; if (!lock) all += in;
    g.describe(url.substr(0, 200) + " -> " + t.url.substr(0, 200) + (what.empty() ? "" : ", " + what) + (lock ? ", in lockstep" : "")); g.nontrivial(true); g.label(what.empty() ? "granted" : what.substr(0, 6) == "method" ? "method" : what.substr(0, 6) == "status" ? "status" : what);
    nt::Duplex d; std::thread peer; std::string stuck; auto frags = nt::split(g, all); bool eof = fails && stages.back().reply.size() + 0 > 0 && what.find("cut") != what.npos; bool ends = fails;
    if (!lock) d.feed(frags, ends ? nt::End::HalfClose : nt::End::Open);
    else peer = std::thread([&] { std::string got; for (auto& s : stages) { std::size_t need = s.expect.empty() ? 0 : s.expect[0].size(); if (s.expect.empty() && s.reply.empty()) break; auto enough = [&] { if (!Socks) return got.find("\r\n\r\n") != got.npos; if (s.expect.size() > 1 && got.size() > 3 && got[3] == 1) need = s.expect[1].size(); return got.size() >= need; };
            while (!enough()) { pollfd p{d.peer, POLLIN, 0}; char b[2000]; if (::poll(&p, 1, 5000) <= 0) { stuck = "the next message never came"; ::shutdown(d.peer, SHUT_RDWR); return; } auto n = ::recv(d.peer, b, sizeof b, MSG_DONTWAIT | MSG_PEEK); if (n <= 0) return; if (got.size() == (std::size_t)n) { usleep(50); continue; } got.assign(b, (std::size_t)n); if (enough()) break; }
            // leave the bytes for the final comparison: remember and consume them
            char b[4000]; auto n = ::recv(d.peer, b, Socks ? need : got.find("\r\n\r\n") + 4, MSG_DONTWAIT); if (n > 0) d.got.append(b, (std::size_t)n); got.clear(); std::size_t cut = s.reply.size() ? s.reply.size() / 2 : 0; if (cut && !d.put(s.reply.substr(0, cut), true)) return; d.put(s.reply.substr(cut), true); if (s.refuses) d.finish(nt::End::HalfClose); }
        if (!fails) d.put(in, true); else d.finish(nt::End::HalfClose); });
    (void)eof; bool threw = false; std::string error, got(in.size(), '\0');
    { coroutine::EventLoop loop; HttpIO io{d.lib, loop}; auto task = [&]() -> coroutine::Task<> { P p{io}; co_await p.connect(url, t.url); if (!in.empty()) co_await io.fullyRecv({got.data(), got.size()}); co_await io.fullySend(outData); };
      try { loop.sync(task()); } catch (std::exception const& e) { threw = true; error = e.what(); } }
    d.closeLib(); if (peer.joinable()) peer.join(); auto const& sent = d.received(); PBT_CHECK(stuck.empty(), stuck << ", the proxy got " << quote(sent, 200));
    if (fails) PBT_CHECK(threw, "the proxy answered with " << what << " but connecting succeeded"); else PBT_CHECK(!threw, "connecting failed although the proxy granted it: " << error);
    if (!fails) PBT_EQ(quote(got, 200), quote(in, 200), "first bytes of the tunnelled stream");
    std::size_t pos = 0;
    if constexpr (Socks) { for (auto& s : stages) { if (s.expect.empty()) break; bool ok = false; std::size_t n = 0; for (auto& e : s.expect) if (sent.compare(pos, e.size(), e) == 0 && sent.size() - pos >= e.size()) { ok = true; n = e.size(); } PBT_CHECK(ok, "the handshake sent " << quote(sent.substr(pos), 300) << " instead of " << quote(s.expect[0], 300)); pos += n; } }
    else checkConnect(sent, pos, t, c);
    PBT_EQ(quote(sent.substr(pos), 200), quote(fails ? ""s : outData, 200), "bytes sent after the handshake");
}
// whole clients through a proxy on the loopback interface
template <class P, bool Socks> static void client(Gen& g) {
    std::size_t calls = 1 + g.draw(4); int lst = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t al = sizeof a; if (::bind(lst, (sockaddr*)&a, sizeof a) || ::listen(lst, 16) || ::getsockname(lst, (sockaddr*)&a, &al)) _exit(98);
    struct Plan { Target t; std::string what; std::vector<Stage> stages; bool dropAfter; std::string body; }; auto c = cred(g, false); std::vector<Plan> ps; std::string desc; bool refusal = false;
    for (std::size_t i = 0; i < calls; ++i) { Plan p; p.t = i ? ps[0].t : target(g, true); p.stages = Socks ? socksStages(g, p.t, c, p.what) : httpStages(g, p.t, c, p.what); p.dropAfter = g.chance(40, 100); p.body = g.blob(g.size(60)); refusal |= p.stages.back().refuses; desc += (p.what.empty() ? "granted" : p.what) + (p.dropAfter ? " (dropped after), " : ", "); ps.push_back(std::move(p)); }
    auto url = proxyUrl(g, c, Socks ? "socks5" : "http", "127.0.0.1:" + std::to_string(ntohs(a.sin_port))); g.describe(url + " " + ps[0].t.url + ": " + desc); g.nontrivial(calls > 1); g.label(refusal ? "refusals" : "granted");
    { nt::Quiet warm; } std::atomic<bool> stop{false}; std::string problem; std::atomic<std::size_t> at{0}; std::size_t before = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++before; }
    std::thread proxy([&] {
        while (!stop) {
            pollfd p{lst, POLLIN, 0}; if (::poll(&p, 1, 3) <= 0) continue; int s = ::accept4(lst, nullptr, nullptr, SOCK_CLOEXEC); if (s < 0) continue;
            auto rd = [&](std::size_t n, std::string& o) { while (o.size() < n) { pollfd q{s, POLLIN, 0}; int r = ::poll(&q, 1, 5); if (r == 0) { if (stop) return false; continue; } char b[1]; if (::recv(s, b, 1, 0) <= 0) return false; o += b[0]; } return true; };
            auto rdHead = [&](std::string& o) { while (o.size() < 4 || o.substr(o.size() - 4) != "\r\n\r\n") if (!rd(o.size() + 1, o)) return false; return true; };
            std::size_t i = at; if (i >= ps.size()) { ::close(s); continue; } auto* pl = &ps[i]; bool alive = true;
            for (auto& st : pl->stages) { std::string m; if (Socks) { if (!rd(4 < st.expect[0].size() ? 4 : st.expect[0].size(), m)) { alive = false; break; } auto& e = st.expect.size() > 1 && m[3] == 1 ? st.expect[1] : st.expect[0]; if (!rd(e.size(), m)) { alive = false; break; } if (m != e) problem = "handshake message " + quote(m, 200) + " instead of " + quote(e, 200); } else if (!rdHead(m)) { alive = false; break; }
                ::send(s, st.reply.data(), st.reply.size(), MSG_NOSIGNAL); if (st.refuses) { alive = false; break; } }
            if (!alive) { ::shutdown(s, SHUT_WR); usleep(200); ::close(s); continue; }
            for (;;) { std::string m; if (!rdHead(m)) break; i = at; if (i >= ps.size()) break; auto& q = ps[i]; auto path = m.substr(0, m.find("\r\n")); std::string r = "HTTP/1.1 200 OK\r\nX-Line: " + path + "\r\nContent-Length: " + std::to_string(q.body.size()) + "\r\n\r\n" + q.body; ::send(s, r.data(), r.size(), MSG_NOSIGNAL); if (q.dropAfter) break; }
            ::close(s);
        } });
    struct Join { std::atomic<bool>& s; std::thread& t; int l; ~Join() { s = true; t.join(); ::close(l); } }; std::string fail;
    { Join j{stop, proxy, lst}; nt::Quiet q; HttpClient<P> cli{HttpClientOptions<P>{ProxyType<P>{url}}}; bool connected = false; cli.setAutoReconnect(true);
      for (std::size_t i = 0; i < calls && fail.empty(); ++i) {
        at = i; bool willRefuse = !connected && ps[i].stages.back().refuses; auto u = ps[i].t.url; if (u.find('/', 7) == u.npos) u += "/"; auto r = cli.get(u + "#").get();
        // a dropped connection is noticed only when it is used again
        bool fresh = !connected; if (!r) { std::string why; try { r.rethrow(); } catch (std::exception const& e) { why = e.what(); } if (fresh && !willRefuse) fail = "call " + std::to_string(i) + " failed although the proxy grants it: " + why; if (!fresh && !ps[i].stages.back().refuses) fail = "call " + std::to_string(i) + " failed: " + why; connected = false; continue; }
        auto res = r.move(); if (willRefuse) { fail = "call " + std::to_string(i) + " succeeded although the proxy answers with " + ps[i].what; break; } if (res.body != ps[i].body) fail = "call " + std::to_string(i) + " returned " + quote(res.body, 80) + " instead of " + quote(ps[i].body, 80); connected = !ps[i].dropAfter; if (ps[i].dropAfter) usleep(2000);
        if (ps[i].dropAfter) connected = true;
      } }
    PBT_CHECK(fail.empty(), fail); PBT_CHECK(problem.empty(), problem); std::size_t after = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++after; } PBT_EQ(after, before - 1, "open descriptors after the client is gone");
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N20",
        .rule = "targets with and without scheme and port, host names up to 300 characters and IPv4 literals, credentials up to 300 characters, replies with every address type and length, refusals, foreign versions and methods, unknown address types and cuts at every stage, in one go or in lockstep, followed by tunnelled bytes in both directions; and clients making several calls through a proxy that grants, refuses and drops; every case is non-trivial (clients: several calls)",
        .assumptions = {"an IPv4 literal may be sent as a name or as an address", "IPv6 literals are outside the property"}},
        {{"socks5", handshake<Socks5Proxy, true>, 30000, 1000000, 30}, {"http", handshake<HttpProxy, false>, 20000, 600000, 30}, {"clientSocks5", client<Socks5Proxy, true>, 1500, 50000, 40}, {"clientHttp", client<HttpProxy, false>, 1500, 50000, 40}});
}

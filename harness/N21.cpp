// technique: property-based testing: generated duplex exchanges between the library's TLS endpoint and an OpenSSL endpoint driven directly (either role, TLS 1.2 and 1.3, key updates), with generated fragmentation, truncation and corruption of the ciphertext, and a differential run of the server over TLS and plain sockets
// opt: -O1
#include <common/ws.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include <sys/stat.h>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using Short = decltype(60_ms);
static std::string file() { return pbt::scratch() + "/n21.dat"; }
static SSL_CTX* gServer; static SSL_CTX* gClient;
// the library's contexts are set once per process: put the holder back into the state it starts in
static unsigned char gPristine[sizeof(SslContext)]; static bool gSaved = (std::memcpy(gPristine, (void*)&SslContext::get(), sizeof gPristine), true); static bool gPlain = false;
static void forget() { (void)gSaved; auto* c = &SslContext::get(); SSL_CTX_free(c->getCtx<SslContext::SslType::Server>()); SSL_CTX_free(c->getCtx<SslContext::SslType::Client>()); std::memcpy((void*)c, gPristine, sizeof gPristine); gPlain = false; }
static void setup(std::string const& c, std::string const& p) { if (!gPlain) { forget(); SslContext::get().init<SslContext::SslType::Server>({SslVerifyOption::None, c, p}); SslContext::get().init<SslContext::SslType::Client>({SslVerifyOption::None, "", ""}); gPlain = true; } }
static void prepare() {
    static auto path = [] { return pbt::scratch() + "/cert.pem"; }; static auto pathK = [] { return pbt::scratch() + "/key.pem"; };
    static bool done = [] {
        auto* k = EVP_EC_gen("P-256"); auto* x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), -3600); X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365); X509_set_pubkey(x, k);
        X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (unsigned char const*)"localhost", -1, -1, 0); X509_set_issuer_name(x, X509_get_subject_name(x)); X509_sign(x, k, EVP_sha256());
        auto c = pbt::scratch() + "/cert.pem", p = pbt::scratch() + "/key.pem"; FILE* f = fopen(c.c_str(), "w"); PEM_write_X509(f, x); fclose(f); f = fopen(p.c_str(), "w"); PEM_write_PrivateKey(f, k, nullptr, nullptr, 0, nullptr, nullptr); fclose(f);
        gServer = SSL_CTX_new(TLS_server_method()); SSL_CTX_use_certificate(gServer, x); SSL_CTX_use_PrivateKey(gServer, k); gClient = SSL_CTX_new(TLS_client_method());
        for (auto* s : {gServer, gClient}) SSL_CTX_set_options(s, SSL_OP_IGNORE_UNEXPECTED_EOF);
        std::string s; for (int i = 0; i < 400000; ++i) s += (char)(i * 31 >> 3); int d = ::open(file().c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (::write(d, s.data(), s.size()) != (ssize_t)s.size()) _exit(98); ::close(d); X509_free(x); EVP_PKEY_free(k); return true; }(); (void)done; setup(path(), pathK());
}
struct Write { std::string data; bool update = false, request = false; };       // one SSL_write, before it maybe a key update
struct Plan {
    bool server = false, tls12 = false, notify = true; std::vector<Write> writes; std::vector<std::size_t> pieces;                   // sizes of the ciphertext pieces, cyclic
    long cutAt = -1, flipAt = -1; int flipBit = 0; bool stall = false;         // positions in the ciphertext sent; stall: stop sending at the cut instead of ending
    std::string plainInstead; long afterMs = 0; SSL_CTX* ctx = nullptr;
};
// the other endpoint: OpenSSL over memory BIOs, in its own thread
struct Ref {
    nt::Duplex& d; Plan p; std::string got; std::atomic<bool> stop{false}; bool handshake = false, failed = false; std::size_t sent = 0, ended = 0; std::string all; std::thread t;
    Ref(nt::Duplex& d, Plan p) : d(d), p(std::move(p)) { t = std::thread([this] { run(); }); }
    void finish() { if (t.joinable()) t.join(); }
    ~Ref() { stop = true; d.stop = true; finish(); }
    bool over = false; std::size_t k = 0;
    bool flush(BIO* out) {                     // passes on the ciphertext, in pieces, damaged as planned
        char b[16384]; std::string c; for (int n; (n = BIO_read(out, b, sizeof b)) > 0;) c.append(b, (std::size_t)n);
        while (!c.empty() && !over) {
            auto n = std::min(c.size(), p.pieces[k++ % p.pieces.size()]); auto piece = c.substr(0, n); c.erase(0, n);
            if (p.flipAt >= (long)sent && p.flipAt < (long)(sent + n)) piece[(std::size_t)p.flipAt - sent] = (char)(piece[(std::size_t)p.flipAt - sent] ^ (1 << p.flipBit));
            if (p.cutAt >= 0 && p.cutAt < (long)(sent + n)) { piece.resize((std::size_t)p.cutAt - sent); if (!piece.empty()) d.put(piece, true); sent += piece.size(); over = true; if (!p.stall) ::shutdown(d.peer, SHUT_WR); return false; }
            if (!d.put(piece, true)) { over = true; return false; } sent += n;
        }
        return !over;
    }
    void run() {
        if (!p.plainInstead.empty()) { d.put(p.plainInstead, true); ::shutdown(d.peer, SHUT_WR); char b[4096]; while (!stop) { pollfd f{d.peer, POLLIN, 0}; ::poll(&f, 1, 5); auto n = ::recv(d.peer, b, sizeof b, MSG_DONTWAIT); if (n == 0 || (n < 0 && errno != EAGAIN)) return; } return; }
        SSL* s = SSL_new(p.ctx ? p.ctx : p.server ? gServer : gClient); BIO *in = BIO_new(BIO_s_mem()), *out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(in, -1); SSL_set_bio(s, in, out); if (p.tls12) SSL_set_max_proto_version(s, TLS1_2_VERSION); else SSL_set_min_proto_version(s, TLS1_3_VERSION);
        p.server ? SSL_set_accept_state(s) : SSL_set_connect_state(s); std::size_t w = 0; bool closed = false, dead = false; int idle = 0; char b[32768];
        while (!stop) {
            ERR_clear_error();
            if (!dead && !handshake) { int r = SSL_do_handshake(s); if (r == 1) handshake = true; else if (int e = SSL_get_error(s, r); e != SSL_ERROR_WANT_READ) failed = dead = true; }
            if (handshake && !dead) for (;;) { ERR_clear_error(); int r = SSL_read(s, b, sizeof b); if (r > 0) { got.append(b, (std::size_t)r); continue; } int e = SSL_get_error(s, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_ZERO_RETURN) failed = dead = true; break; }
            if (handshake && !dead && w < p.writes.size()) { auto& x = p.writes[w++]; if (x.update && !p.tls12) SSL_key_update(s, x.request ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); if (!x.data.empty()) SSL_write(s, x.data.data(), (int)x.data.size()); idle = 0; }
            flush(out);
            if (handshake && !dead && w < p.writes.size()) continue;
            if ((dead || (handshake && w == p.writes.size())) && !closed) { closed = true; if (!dead && p.notify) SSL_shutdown(s); flush(out); ended = sent; if (!p.stall || !over) ::shutdown(d.peer, SHUT_WR); }
            pollfd f{d.peer, POLLIN, 0}; int r = ::poll(&f, 1, 2); if (r == 0) { if (p.flipAt >= 0 && ++idle > 15 && !closed) { closed = true; ::shutdown(d.peer, SHUT_WR); } continue; }
            auto n = ::recv(d.peer, b, sizeof b, MSG_DONTWAIT); if (n > 0) { BIO_write(in, b, (int)n); idle = 0; continue; } if (n < 0 && (errno == EAGAIN || errno == EINTR)) continue; break;
        }
        if (!dead && handshake) for (;;) { ERR_clear_error(); int r = SSL_read(s, b, sizeof b); if (r <= 0) break; got.append(b, (std::size_t)r); }
        SSL_free(s);
    }
};
static std::string text(std::size_t n, std::uint64_t seed) { std::string s(n, '\0'); auto x = seed | 1; for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char)(x >> 56); } return s; }
static std::vector<std::size_t> pieces(Gen& g) { switch (g.draw(4)) { case 0: return {1u << 20}; case 1: { std::vector<std::size_t> r; for (int i = 0; i < 6; ++i) r.push_back(1 + g.draw(g.boolean() ? 30 : 4000)); r.push_back(500); return r; } case 2: return {g.sizeNear({1024, 16384, 16406, 16389, 5}, 20000) + 1}; default: return {1 + g.draw(40), 1, 4000, 1 + g.draw(20000)}; } }
static std::size_t amount(Gen& g) { return g.chance(12, 100) ? g.sizeNear({16384, 32768, 65536, 131072, 133120, 262144}, 300000) : g.size(600); }
struct Op { int kind; std::size_t n; };          // 0/1 send, send with timeout; 2 recv, 3 fullyRecv, 4 recvStruct, 5 recv with timeout
static char const* kOp[] = {"send", "sendT", "recv", "fullyRecv", "recvStruct", "recvT"};
static void exchange(Gen& g) {
    prepare(); Plan p; p.server = g.boolean(); p.tls12 = g.chance(30, 100); p.notify = g.boolean(); p.pieces = pieces(g); std::string A, B; std::uint64_t seed = g.draw(0); bool handshakeFault = false;
    for (std::size_t i = 0, n = g.size(8); i < n; ++i) { Write w; w.data = text(amount(g), seed + i * 2); w.update = g.chance(15, 100); w.request = g.boolean(); A += w.data; p.writes.push_back(std::move(w)); }
    std::vector<Op> ops; std::size_t left = A.size(); std::string desc = std::string("library is ") + (p.server ? "client" : "server") + (p.tls12 ? ", TLS 1.2, " : ", TLS 1.3, ") + std::to_string(A.size()) + " bytes in " + std::to_string(p.writes.size()) + " writes; ";
    for (std::size_t i = 0, n = g.size(10); i < n; ++i) { Op o{(int)g.draw(6), 0}; if (o.kind < 2) { o.n = amount(g); B += text(o.n, seed + 1000 + i); } else if (o.kind == 4) { o.n = 4; } else o.n = 1 + amount(g); if (o.kind == 3 || o.kind == 4) { if (o.n > left) continue; left -= o.n; } else if (o.kind > 1) { if (!left) continue; left -= std::min(left, o.n); } ops.push_back(o); desc += std::string(kOp[o.kind]) + " " + std::to_string(o.n) + "; "; }
    int fault = g.chance(60, 100) ? 0 : 1 + (int)g.draw(4); std::size_t wire = A.size() + p.writes.size() * 30 + 1500;
    if (fault == 1) { p.cutAt = (long)(g.chance(40, 100) ? g.draw(1600) : g.draw(wire)); desc += "cut at " + std::to_string(p.cutAt); } if (fault == 2) { p.flipAt = (long)(g.chance(40, 100) ? g.draw(1600) : g.draw(wire)); p.flipBit = (int)g.draw(8); desc += "bit flipped at " + std::to_string(p.flipAt); }
    if (fault == 3) { p.plainInstead = g.boolean() ? "GET / HTTP/1.1\r\nHost: x\r\n\r\n" : g.bytes(1 + g.size(300)); handshakeFault = true; desc += "no TLS at all"; } if (fault == 4) { p.cutAt = (long)g.draw(wire); p.stall = true; desc += "stalls at " + std::to_string(p.cutAt); if (!g.chance(10, 100)) { fault = 0; p.cutAt = -1; p.stall = false; desc += " (not)"; } }
    bool beside = g.chance(40, 100); g.describe(desc + (beside ? " beside another connection" : "")); g.nontrivial(A.size() + B.size() > 0); g.label(fault == 0 ? "intact" : fault == 1 ? "cut" : fault == 2 ? "corrupted" : fault == 3 ? "no TLS" : "stall");
    std::string got; bool connected = false, ended = false, timedOut = false, early = false, other = false; std::string error, problem; std::size_t sentAll = 0;
    { nt::Duplex d; Ref ref(d, p); {
        nt::Quiet quiet; coroutine::EventLoop loop; int fd = d.releaseLib();
        auto task = [&]() -> coroutine::Task<> {
            HttpsIO io{fd, loop}; std::size_t b = 0; std::string buf;
            try {
                io.initSslBio(p.server ? SslContext::SslType::Client : SslContext::SslType::Server); if (p.stall) co_await io.initSsl<Short>(!p.server); else co_await io.initSsl<Long>(!p.server); connected = true;
                auto take = [&](int n) { if (n < 0) { error = "recv returned " + std::to_string(n); return false; } if (n == 0) { ended = true; return false; } got.append(buf.data(), (std::size_t)n); return true; };
                auto timed = [&](std::size_t n) -> coroutine::Task<bool> {
                    buf.assign(n, '\x5a'); if (!p.stall) { auto r = co_await io.recvLinkTimeout<Long>({buf.data(), buf.size()}); if (r.index() == 1) { timedOut = true; co_return false; } co_return take(r.template get<0>()); }
                    auto t0 = std::chrono::steady_clock::now(); auto r = co_await io.recvLinkTimeout<Short>({buf.data(), buf.size()}); if (r.index() == 1) { timedOut = true; early = std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(60); co_return false; } co_return take(r.template get<0>()); };
                bool go = true;
                for (auto& o : ops) {
                    if (o.kind < 2) { std::span<char const> s{B.data() + b, o.n}; b += o.n; if (o.kind == 0) co_await io.fullySend(s); else co_await io.sendLinkTimeout<Long>(s); sentAll = b; continue; }
                    if (!go) continue;
                    if (p.stall || o.kind == 5) { go = co_await timed(o.n); continue; }
                    if (o.kind == 2) { buf.assign(o.n, '\x5a'); go = take(co_await io.recv({buf.data(), buf.size()})); continue; }
                    if (o.kind == 4) { auto v = co_await io.recvStruct<std::array<char, 4>>(); got.append(v.data(), 4); continue; }
                    buf.assign(o.n, '\x5a'); co_await io.fullyRecv({buf.data(), buf.size()}); got += buf;
                }
                while (go) { if (p.stall) go = co_await timed(5000); else { buf.assign(1 + got.size() % 30000, '\x5a'); go = take(co_await io.recv({buf.data(), buf.size()})); } }
            } catch (std::exception const& e) { error = e.what(); }
            co_await io.close();
        };
        std::unique_ptr<nt::Duplex> d2; std::unique_ptr<Ref> ref2; std::string hello = text(3000, seed + 5); auto echo = [&](int f2) -> coroutine::Task<> { HttpsIO io{f2, loop}; try { io.initSslBio(SslContext::SslType::Server); co_await io.initSsl<Long>(true); std::string b(3000, ' '); co_await io.fullyRecv({b.data(), 1500}); co_await io.fullyRecv({b.data() + 1500, 1500}); other = b == hello; co_await io.fullySend(b); } catch (std::exception const& e) { problem = e.what(); } co_await io.close(); };
        if (beside) { Plan q; q.writes = {{hello.substr(0, 1000)}, {hello.substr(1000)}}; q.pieces = {1 + g.draw(900)}; d2 = std::make_unique<nt::Duplex>(); ref2 = std::make_unique<Ref>(*d2, q); }
        auto t1 = task(); loop.start(t1); if (beside) { auto t2 = echo(d2->releaseLib()); loop.start(t2); loop.run(); } else loop.run();
        if (beside) { ref2->finish(); PBT_CHECK(other && ref2->got == hello, "a healthy connection on the same loop failed: " << problem); }
      }
      ref.finish();
      PBT_CHECK(got.size() <= A.size() && A.compare(0, got.size(), got) == 0, "the library delivered " << got.size() << " bytes that are not the beginning of the " << A.size() << " bytes sent");
      PBT_CHECK(ref.got.size() <= B.size() && B.compare(0, ref.got.size(), ref.got) == 0, "the peer received " << ref.got.size() << " bytes that are not the beginning of the " << B.size() << " bytes sent"); PBT_CHECK(!early, "a read timed out before its time");
      if (fault == 3) PBT_CHECK(!connected, "the handshake succeeded without TLS");
      bool intact = !p.plainInstead.size() && (p.cutAt < 0 || p.cutAt >= (long)ref.sent + (p.cutAt == (long)ref.sent && !ref.over)) && (p.flipAt < 0 || p.flipAt >= (long)ref.sent);
      if (intact && !ref.over) { PBT_CHECK(connected, "the handshake failed on an intact connection: " << error); PBT_CHECK(got.size() == A.size() && ended && error.empty(), "the library received " << got.size() << " of " << A.size() << " bytes sent by its peer" << (error.empty() ? timedOut ? ", then timed out" : "" : ", then: " + error)); PBT_CHECK(ref.got.size() == B.size(), "the peer received " << ref.got.size() << " of the " << B.size() << " bytes sent by the library"); }
      else { PBT_CHECK(ended || !error.empty() || timedOut || !connected, "neither an error nor an end was reported"); if (p.flipAt >= 0 && p.cutAt < 0 && connected && p.flipAt < (long)ref.sent) g.label("corrupted after the handshake"); }
      if (connected && p.stall && ref.over) PBT_CHECK(timedOut || !error.empty() || ended, "a stalled peer was not noticed");
    }
}
static void served(Gen& g) {
    prepare(); using namespace std::string_literals;
    static auto make = []<typename IO>() { auto* r = new Router<IO>; using Q = HttpRequest<IO>; using S = HttpResponse<IO>;
        r->template addEndpoint<POST, PUT>("/echo", [](Q& q, S& s) -> coroutine::Task<> { auto b = co_await q.template parseBody<Long>(); co_await s.setStatusAndContent(Status::CODE_200, b).sendRes(); });
        r->template addEndpoint<POST>("/save", [](Q& q, S& s) -> coroutine::Task<> { auto f = pbt::scratch() + "/n21.up"; co_await q.template saveToFile<Long>(f); std::string c; int d = ::open(f.c_str(), O_RDONLY | O_CLOEXEC); char b[65536]; for (ssize_t n; (n = ::read(d, b, sizeof b)) > 0;) c.append(b, (std::size_t)n); ::close(d); co_await s.setStatusAndContent(Status::CODE_200, c).sendRes(); });
        r->template addEndpoint<GET>("/file", [](Q&, S& s) -> coroutine::Task<> { co_await s.useChunkedEncodingTransferFile(file()); });
        r->template addEndpoint<GET>("/range", [](Q& q, S& s) -> coroutine::Task<> { co_await s.useRangeTransferFile(q.getRangeRequestView(), file()); });
        r->template addEndpoint<GET>("/ws", [](Q& q, S& s) -> coroutine::Task<> { auto ws = co_await WebSocketFactory<IO>{q, s}.accept(); for (;;) { auto p = co_await ws.template recv<true, Long>(OpCode::Text, OpCode::Binary); co_await ws.send(p.opCode, p.content); } });
        return r; };
    static Router<HttpIO>* plain = make.operator()<HttpIO>(); static Router<HttpsIO>* tls = make.operator()<HttpsIO>();
    std::string wire, desc; std::size_t n = 1 + g.size(4); bool big = false;
    for (std::size_t i = 0; i < n; ++i) {
        auto k = g.draw(6); std::string h = "Host: x\r\n"; 
        if (k < 3) { auto b = text(amount(g), g.draw(0)); big |= b.size() > 10000; std::string t = k == 2 ? "/save" : "/echo"; desc += t + " " + std::to_string(b.size()) + "; "; if (g.boolean()) wire += "POST " + t + " HTTP/1.1\r\n" + h + "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; else { wire += "POST " + t + " HTTP/1.1\r\n" + h + "Transfer-Encoding: chunked\r\n\r\n"; for (std::size_t q = 0; q < b.size();) { auto m = std::min(b.size() - q, 1 + g.draw(40000)); char x[32]; snprintf(x, sizeof x, "%zx\r\n", m); wire += x + b.substr(q, m) + "\r\n"; q += m; } wire += "0\r\n\r\n"; } }
        else if (k == 3) { wire += "GET /file HTTP/1.1\r\n" + h + "\r\n"; desc += "/file; "; big = true; }
        else if (k == 4) { auto a = g.draw(400000), b = a + g.draw(400000 - a); wire += "GET /range HTTP/1.1\r\n" + h + "Range: bytes=" + std::to_string(a) + "-" + std::to_string(b) + "\r\n\r\n"; desc += "/range " + std::to_string(b - a + 1) + "; "; }
        else if (i + 1 == n) { wire += "GET /ws HTTP/1.1\r\n" + h + "Origin: http://h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"; for (std::size_t j = 0, m = g.size(5); j < m; ++j) { wsf::Frame f; f.op = 1 + (int)g.draw(2); f.masked = true; f.key = wsf::key(g); f.data = wsf::payload(g); wire += wsf::encode(f); } desc += "/ws; "; }
    }
    Plan p; p.tls12 = g.chance(30, 100); p.pieces = pieces(g); p.notify = g.boolean(); for (std::size_t q = 0; q < wire.size();) { auto m = std::min(wire.size() - q, g.boolean() ? 1 + g.draw(50000) : wire.size()); Write w; w.data = wire.substr(q, m); p.writes.push_back(std::move(w)); q += m; }
    g.describe(desc); g.nontrivial(wire.size() > 200); g.label(big ? "large" : "small"); if (wire.empty()) pbt::discard();
    std::string want; std::atomic_bool isRun{true}; { nt::Duplex d; d.collect(); d.feed({wire}, nt::End::HalfClose); nt::serve<Long>(d, *plain, isRun); want = d.received(); }
    nt::Duplex d; Ref ref(d, p); { nt::Quiet q; coroutine::EventLoop loop; ConnectionHandler<HttpsIO>::start<Long>(d.releaseLib(), isRun, *tls, loop).detach(); loop.run(); } ref.finish();
    std::size_t k = 0; while (k < std::min(want.size(), ref.got.size()) && want[k] == ref.got[k]) ++k; PBT_CHECK(want == ref.got, "over TLS the server answered " << ref.got.size() << " bytes, over a plain connection " << want.size() << "; they differ at byte " << k << ": " << quote(ref.got.substr(k, 60)) << " / " << quote(want.substr(k, 60)));
}
// certificates: two authorities, of which the library is told to trust the first, and end certificates below them
struct Cert { X509* x = nullptr; EVP_PKEY* k = nullptr; std::vector<X509*> chain; std::string file, key; };
static Cert issue(char const* cn, Cert const* by, long from, long to, bool ca) {
    static long serial = 1; Cert r; r.k = EVP_EC_gen("P-256"); r.x = X509_new(); X509_set_version(r.x, 2); ASN1_INTEGER_set(X509_get_serialNumber(r.x), ++serial); X509_gmtime_adj(X509_getm_notBefore(r.x), from); X509_gmtime_adj(X509_getm_notAfter(r.x), to); X509_set_pubkey(r.x, r.k);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(r.x), "CN", MBSTRING_ASC, (unsigned char const*)cn, -1, -1, 0); X509_set_issuer_name(r.x, X509_get_subject_name(by ? by->x : r.x));
    if (ca) { auto* e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_basic_constraints, "critical,CA:TRUE"); X509_add_ext(r.x, e, -1); X509_EXTENSION_free(e); }
    X509_sign(r.x, by ? by->k : r.k, EVP_sha256()); if (by && by->chain.size() < 8) { r.chain = by->chain; r.chain.insert(r.chain.begin(), by->x); }
    static int n = 0; r.file = pbt::scratch() + "/c" + std::to_string(++n) + ".pem"; r.key = pbt::scratch() + "/k" + std::to_string(n) + ".pem"; FILE* f = fopen(r.file.c_str(), "w"); PEM_write_X509(f, r.x); fclose(f); f = fopen(r.key.c_str(), "w"); PEM_write_PrivateKey(f, r.k, nullptr, nullptr, 0, nullptr, nullptr); fclose(f); return r;
}
enum { kGood, kChain1, kChain4, kForeign, kSelf, kExpired, kFuture, kByLeaf, kNone }; static char const* kCert[] = {"trusted", "trusted over one intermediate", "trusted over four intermediates", "of a foreign authority", "self-signed", "expired", "not yet valid", "signed by an end certificate", "none"};
struct Pki { Cert ca, foreign; Cert c[8];
    Pki() { long d = 86400; ca = issue("root", nullptr, -d, 365 * d, true); foreign = issue("root", nullptr, -d, 365 * d, true); c[kGood] = issue("leaf", &ca, -d, d, false); Cert m = issue("m1", &ca, -d, d, true); c[kChain1] = issue("leaf1", &m, -d, d, false); for (char const* n : {"m2", "m3", "m4"}) m = issue(n, &m, -d, d, true); c[kChain4] = issue("leaf4", &m, -d, d, false);
        c[kForeign] = issue("leaf", &foreign, -d, d, false); c[kSelf] = issue("leaf", nullptr, -d, d, false); c[kExpired] = issue("leaf", &ca, -2 * d, -60, false); c[kFuture] = issue("leaf", &ca, d, 2 * d, false); c[kByLeaf] = issue("leaf", &c[kGood], -d, d, false); } };
static void verify(Gen& g) {
    static Pki* pki = [] { auto* p = new Pki; auto dir = pbt::scratch() + "/none.d"; ::mkdir(dir.c_str(), 0755); ::setenv("SSL_CERT_FILE", p->ca.file.c_str(), 1); ::setenv("SSL_CERT_DIR", dir.c_str(), 1); return p; }(); forget(); ERR_clear_error();
    auto good = [](int c) { return c == kGood || c == kChain1 || c == kChain4; };
    bool client = g.boolean(); auto opt = g.oneof<SslVerifyOption>({SslVerifyOption::None, SslVerifyOption::ClientPeer, SslVerifyOption::ServerPeer}); int theirs = (int)g.draw(client ? 8 : 9), mine = client ? (int)g.pick(std::vector<int>{kGood, kForeign, kSelf, kExpired, kNone, kNone}) : (int)g.pick(std::vector<int>{kGood, kForeign, kSelf}), peer = client ? (int)g.draw(3) : 0;     // peer: how the other side checks the library's certificate
    SslConfig wrong; int bad = g.chance(25, 100) ? 1 + (int)g.draw(5) : 0; auto garbage = pbt::scratch() + "/garbage.pem"; if (bad == 5) { FILE* f = fopen(garbage.c_str(), "w"); auto b = g.bytes(g.size(200)); fwrite(b.data(), 1, b.size(), f); fclose(f); }
    switch (bad) { case 1: wrong = {opt, pki->c[kGood].file, pki->c[kSelf].key}; break; case 2: wrong = {opt, pki->c[kGood].file + ".not", pki->c[kGood].key}; break; case 3: wrong = {opt, pki->c[kGood].file, pki->c[kGood].key + ".not"}; break; case 4: wrong = {opt, pki->c[kGood].key, pki->c[kGood].file}; break; case 5: wrong = g.boolean() ? SslConfig{opt, garbage, pki->c[kGood].key} : SslConfig{opt, pki->c[kGood].file, garbage}; break; }
    SslConfig right{opt, mine == kNone ? "" : pki->c[mine].file, mine == kNone ? "" : pki->c[mine].key}; bool tls12 = g.chance(40, 100);
    static char const* kOpt[] = {"None", "ClientPeer", "ServerPeer"}; int oi = opt == SslVerifyOption::None ? 0 : opt == SslVerifyOption::ClientPeer ? 1 : 2; g.describe(std::string("library is ") + (client ? "client" : "server") + (tls12 ? ", TLS 1.2, " : ", TLS 1.3, ") + kOpt[oi] + ", its certificate: " + kCert[mine] + ", the peer's: " + kCert[theirs] + ", the peer " + (peer == 0 ? "checks nothing" : peer == 1 ? "checks a certificate if there is one" : "demands a certificate") + (bad ? ", after a refused configuration " + std::to_string(bad) : ""));
    auto init = [&](SslConfig c) { if (client) SslContext::get().init<SslContext::SslType::Client>(std::move(c)); else SslContext::get().init<SslContext::SslType::Server>(std::move(c)); };
    if (bad) { bool thrown = false; try { init(wrong); } catch (exception::SslException const&) { thrown = true; } PBT_CHECK(thrown, "a certificate and key that cannot be used together were accepted: " << bad); ERR_clear_error(); }
    init(right);
    bool theirsOk = opt == SslVerifyOption::None || (client ? good(theirs) : theirs == kNone ? opt == SslVerifyOption::ClientPeer : good(theirs));
    bool mineOk = peer == 0 || (mine == kNone ? peer == 1 : good(mine)), want = theirsOk && mineOk; g.nontrivial(opt != SslVerifyOption::None || peer); g.label(want ? "accepted" : theirsOk ? "refused by the peer" : "refused by the library");
    SSL_CTX* x = SSL_CTX_new(client ? TLS_server_method() : TLS_client_method()); SSL_CTX_set_options(x, SSL_OP_IGNORE_UNEXPECTED_EOF); if (theirs != kNone) { auto& c = pki->c[theirs]; SSL_CTX_use_certificate(x, c.x); SSL_CTX_use_PrivateKey(x, c.k); for (auto* m : c.chain) { X509_up_ref(m); SSL_CTX_add_extra_chain_cert(x, m); } }
    if (peer) { SSL_CTX_load_verify_file(x, pki->ca.file.c_str()); SSL_CTX_set_verify(x, peer == 1 ? SSL_VERIFY_PEER : SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr); }
    Plan p; p.server = client; p.tls12 = tls12; p.ctx = x; p.pieces = pieces(g); p.writes = {{"from the peer"}}; std::string got, error; bool connected = false;
    { nt::Duplex d; Ref ref(d, p); { nt::Quiet quiet; coroutine::EventLoop loop; int fd = d.releaseLib();
        auto task = [&]() -> coroutine::Task<> { HttpsIO io{fd, loop}; try { io.initSslBio(client ? SslContext::SslType::Client : SslContext::SslType::Server); co_await io.initSsl<Long>(!client); connected = true; co_await io.fullySend(std::string_view{"from the library"}); std::string b(13, ' '); co_await io.fullyRecv({b.data(), b.size()}); got = b; } catch (std::exception const& e) { error = e.what(); } co_await io.close(); };
        auto t = task(); loop.start(t); loop.run(); }
      ref.finish();
      if (want) PBT_CHECK(got == "from the peer" && ref.got == "from the library", "the exchange failed although each side's certificate satisfies the other: " << error);
      else if (!theirsOk) { PBT_CHECK(!connected && got.empty(), "the library accepted a peer whose certificate is: " << kCert[theirs]); PBT_CHECK(ref.got.empty(), "data was sent to a peer whose certificate is: " << kCert[theirs]); }
      else PBT_CHECK(got.empty() && ref.got.empty() && !error.empty(), "the exchange succeeded although the peer refused the certificate of the library"); }
    SSL_CTX_free(x); forget();
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N21",
        .rule = "scripts of up to 10 sends and receives of every kind at the library's endpoint against up to 8 writes of its peer, sizes around 16 KB multiples and the 130 KB buffer, ciphertext in pieces from 1 byte up, cut, bit-flipped, stalled or replaced by plain text at any position including the handshake, beside a healthy connection on the same loop; verify: every verification option in both roles against 9 kinds of peer certificate, own certificates checked by the peer, after refused configurations; non-trivial: at least one byte travels, or a certificate is checked",
        .assumptions = {"OpenSSL itself is correct", "the trusted authorities are the ones OpenSSL's default locations name (SSL_CERT_FILE); host names are not part of what the library checks"}},
        {{"exchange", exchange, 6000, 250000, 60}, {"served", served, 1500, 60000, 60}, {"verify", verify, 1500, 100000, 60}});
}

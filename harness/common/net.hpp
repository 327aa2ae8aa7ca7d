// Socket pairs with generated fragmentation, and an independent HTTP message reader, for the network harnesses.
#pragma once
#include <common/pbt.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <thread>
#include <atomic>
#include <map>
#include <set>
#include <deque>

namespace nt {
using pbt::Gen; using pbt::quote;
inline std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }

enum class End { Open, HalfClose, Close, Reset };   // what the peer does after its last byte

// `lib` is handed to the library, `peer` belongs to the harness. Each fragment carries an SCM_RIGHTS
// descriptor, which makes the kernel end a read at the fragment boundary: reads see the generated split.
struct Duplex {
    int lib = -1, peer = -1, nul = -1;
    std::thread feeder, reader; std::atomic<bool> stop{false}; std::string got; std::atomic<bool> peerEof{false};
    explicit Duplex(int sndbuf = 0) {
        int s[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) { perror("socketpair"); _exit(98); }
        lib = s[0]; peer = s[1]; nul = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
        int big = 1 << 22; ::setsockopt(peer, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
        if (sndbuf) ::setsockopt(lib, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
        else ::setsockopt(lib, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
    }
    Duplex(Duplex const&) = delete;
    int releaseLib() { int f = lib; lib = -1; return f; }     // the library closes it
    void closeLib() { if (lib >= 0) { ::close(lib); lib = -1; } }
    bool put(std::string_view f, bool wait) {
        std::size_t off = 0;
        while (off < f.size()) {
            iovec io{const_cast<char*>(f.data() + off), f.size() - off}; alignas(cmsghdr) char c[CMSG_SPACE(sizeof(int))]{};
            msghdr m{}; m.msg_iov = &io; m.msg_iovlen = 1;
            if (off == 0 && f.size() < 60000) { m.msg_control = c; m.msg_controllen = sizeof c; auto* h = CMSG_FIRSTHDR(&m); h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int)); std::memcpy(CMSG_DATA(h), &nul, sizeof(int)); }
            auto n = ::sendmsg(peer, &m, MSG_DONTWAIT | MSG_NOSIGNAL);
            if (n > 0) { off += (std::size_t)n; continue; }
            if (n < 0 && errno == EINTR) continue;
            if (n < 0 && (errno == EAGAIN || errno == ETOOMANYREFS || errno == ENOBUFS)) {
                if (!wait || stop) return left = f.substr(off), false;
                pollfd p{peer, POLLOUT, 0}; ::poll(&p, 1, 2); if (errno == ETOOMANYREFS) usleep(300); continue;
            }
            return broken = true, false;            // the library closed its end
        }
        return true;
    }
    // all fragments at once where they fit, otherwise from a thread
    void feed(std::vector<std::string> frags, End end) {
        std::size_t i = 0; for (; i < frags.size(); ++i) { left.clear(); if (!put(frags[i], false)) break; }
        if (i == frags.size()) { finish(end); return; }
        if (broken) return;
        std::vector<std::string> rest; if (!left.empty()) rest.push_back(left); for (++i; i < frags.size(); ++i) rest.push_back(frags[i]);
        feeder = std::thread([this, rest = std::move(rest), end] { for (auto& f : rest) if (!put(f, true)) return; finish(end); });
    }
    // fragment by fragment, waiting until the library has taken each one (reads are exactly the fragments), with optional pauses
    void feedPaced(std::vector<std::pair<std::string, int>> frags, End end) {       // {bytes, ms to wait before sending them}
        feeder = std::thread([this, frags = std::move(frags), end] {
            for (auto& [f, ms] : frags) { for (int t = 0; t < ms * 10 && !stop; ++t) usleep(100); if (!put(f, true) || !taken()) return; }
            finish(end);
        });
    }
    bool taken() { int q = 0; for (int k = 0; !stop; ++k) { if (::ioctl(peer, TIOCOUTQ, &q) || q == 0) return true; if (k > 20) usleep(20); else sched_yield(); } return false; }
    void finish(End e) {
        if (e == End::HalfClose) ::shutdown(peer, SHUT_WR);
        else if (e == End::Close) { ::shutdown(peer, SHUT_RDWR); }
        ended = true;
    }
    // collect what the library sends, from a thread, pausing `us` before each read of at most `step` bytes
    void collect(std::size_t step = 65536, int us = 0) {
        reader = std::thread([this, step, us] {
            std::string b(step, '\0');
            for (;;) {
                pollfd p{peer, POLLIN, 0}; int r = ::poll(&p, 1, 5); if (r == 0) { if (stop) return; continue; }
                if (us) usleep((unsigned)us);
                auto n = ::recv(peer, b.data(), b.size(), MSG_DONTWAIT);
                if (n > 0) { got.append(b.data(), (std::size_t)n); continue; }
                if (n < 0 && (errno == EAGAIN || errno == EINTR)) continue;
                peerEof = true; return;
            }
        });
    }
    // everything the library has sent so far (call when it is done)
    std::string const& received() {
        if (reader.joinable()) { stop = true; reader.join(); stop = false; }
        char b[65536]; for (;;) { auto n = ::recv(peer, b, sizeof b, MSG_DONTWAIT); if (n > 0) { got.append(b, (std::size_t)n); continue; } if (n == 0 || (n < 0 && errno == ECONNRESET)) peerEof = true; if (n < 0 && errno == EINTR) continue; break; }
        return got;
    }
    ~Duplex() { stop = true; if (feeder.joinable()) feeder.join(); if (reader.joinable()) reader.join(); if (lib >= 0) ::close(lib); if (peer >= 0) ::close(peer); if (nul >= 0) ::close(nul); }
    bool ended = false, broken = false;
private:
    std::string left;
};

// generated split of the bytes into fragments; marks are interesting positions (cuts fall near them)
inline std::vector<std::string> split(Gen& g, std::string_view w, std::vector<std::size_t> marks = {}, std::size_t maxFrags = 300) {
    std::vector<std::string> r; std::set<std::size_t> cuts;
    switch (g.draw(5)) {
    case 0: break;                                                                      // one piece
    case 1: if (!w.empty()) cuts.insert(g.draw(w.size())); break;                       // one cut
    case 2: { std::size_t n = 1 + g.draw(8); for (std::size_t i = 0; i < n && !w.empty(); ++i) {
        if (!marks.empty() && g.chance(60, 100)) { auto m = g.pick(marks) + g.draw(5); if (m >= 2) cuts.insert(m - 2); } else cuts.insert(g.draw(w.size())); } break; }
    case 3: { std::size_t from = w.empty() ? 0 : g.draw(w.size()), n = std::min<std::size_t>(w.size() - from, maxFrags); if (w.size() <= maxFrags) { from = 0; n = w.size(); } for (std::size_t i = 0; i < n; ++i) cuts.insert(from + i); break; }   // byte by byte
    case 4: { std::size_t step = 1 + g.draw(g.chance(50, 100) ? 12 : 3000); for (std::size_t p = step, k = 0; p < w.size() && k < maxFrags; p += step, ++k) cuts.insert(p); break; }
    }
    std::size_t p = 0; for (auto c : cuts) if (c > p && c < w.size()) { r.emplace_back(w.substr(p, c - p)); p = c; }
    if (p < w.size()) r.emplace_back(w.substr(p));
    return r;
}
inline std::vector<std::size_t> crlfs(std::string_view w, std::size_t max = 60) { std::vector<std::size_t> r; for (std::size_t p = 0; (p = w.find("\r\n", p)) != w.npos && r.size() < max; p += 2) r.push_back(p); return r; }

// ---- a strict, independent reader of HTTP/1.1 messages
struct Msg { std::string start, body; std::map<std::string, std::string> head; std::map<std::string, int> count; bool chunked = false; std::vector<std::size_t> chunks; };
struct Bad { std::string why; };
inline bool tchar(unsigned char c) { return std::isalnum(c) || (c && std::strchr("!#$%&'*+-.^_`|~", c)); }
// reads one message at `pos`; `response` with bodyless statuses or to HEAD have no body (pass noBody)
inline Msg readMsg(std::string_view w, std::size_t& pos, bool response, bool noBody = false, bool untilEnd = false) {
    Msg m; auto line = [&]() -> std::string { auto e = w.find("\r\n", pos); if (e == w.npos) throw Bad{"a line is not ended by CRLF: " + quote(w.substr(pos), 120)}; std::string l(w.substr(pos, e - pos)); pos = e + 2; if (l.find('\r') != l.npos || l.find('\n') != l.npos || l.find('\0') != l.npos) throw Bad{"stray CR, LF or NUL in line " + quote(l, 120)}; return l; };
    m.start = line();
    for (;;) {
        auto l = line(); if (l.empty()) break;
        auto c = l.find(':'); if (c == l.npos || c == 0) throw Bad{"malformed field line " + quote(l, 120)};
        for (unsigned char ch : l.substr(0, c)) if (!tchar(ch)) throw Bad{"malformed field name in " + quote(l, 120)};
        auto v = l.substr(c + 1); v.erase(0, std::min(v.find_first_not_of(" \t"), v.size())); v.erase(v.find_last_not_of(" \t") + 1);
        auto k = low(l.substr(0, c)); m.head[k] = v; if (++m.count[k] > 1 && (k == "content-length" || k == "transfer-encoding" || k == "content-type" || k == "content-range")) throw Bad{"field " + k + " occurs twice"};
    }
    bool cl = m.head.count("content-length"), te = m.head.count("transfer-encoding");
    if (cl && te) throw Bad{"both Content-Length and Transfer-Encoding"};
    if (noBody) return m;
    if (cl) { auto& v = m.head["content-length"]; if (v.empty() || v.find_first_not_of("0123456789") != v.npos) throw Bad{"Content-Length " + quote(v)}; auto n = std::stoull(v); if (w.size() - pos < n) throw Bad{"body has " + std::to_string(w.size() - pos) + " of " + v + " bytes"}; m.body = w.substr(pos, n); pos += n; return m; }
    if (te) {
        if (low(m.head["transfer-encoding"]) != "chunked") throw Bad{"Transfer-Encoding " + m.head["transfer-encoding"]};
        m.chunked = true;
        for (;;) {
            auto l = line(); auto s = l.substr(0, l.find(';')); if (s.empty() || s.size() > 15 || s.find_first_not_of("0123456789abcdefABCDEF") != s.npos) throw Bad{"chunk size line " + quote(l, 60)};
            auto n = std::stoull(s, nullptr, 16);
            if (!n) { while (!line().empty()) {} return m; }
            if (w.size() - pos < n + 2) throw Bad{"chunk cut short"};
            m.body += w.substr(pos, n); pos += n; m.chunks.push_back(n); if (w.substr(pos, 2) != "\r\n") throw Bad{"chunk data not followed by CRLF"}; pos += 2;
        }
    }
    if (response && untilEnd) { m.body = w.substr(pos); pos = w.size(); }
    return m;
}
// ---- generators of message parts
inline constexpr std::string_view kToken = "abcdefgXYZ0123456789-_.!#$%&'*+^`|~";
inline std::string fieldName(Gen& g) { return g.chance(70, 100) ? g.oneof<std::string>({"X-A", "Accept", "User-Agent", "Cookie", "host", "ETAG", "x", "If-None-Match", "X-Forwarded-For", "cache-control"}) + (g.chance(40, 100) ? g.strUpTo("abAB-_9", 4) : "") : g.strUpTo(kToken, 20, 1); }
inline std::string fieldValue(Gen& g, std::size_t longMax = 300) {
    std::string v; switch (g.draw(5)) {
    case 0: break;
    case 1: v = g.strUpTo("abc xyz:;=,\"/\t0129?-_", 40); break;
    case 2: v = g.oneof<std::string>({"*/*", "text/html; charset=utf-8", "a: b", ": :", "http://h:80/p?q=1#x", "Mon, 01 Jan 2024 00:00:00 GMT", "k=v; k2=v2", ":", "\"q,u\"", "0"}); break;
    case 3: { std::size_t n = g.size(30); for (std::size_t i = 0; i < n; ++i) { auto c = (char)g.draw(256); if ((unsigned char)c >= 0x21 && c != 0x7f) v += c; } break; }
    case 4: v = g.str("abcdef 0:", g.draw(longMax) + 1); break;
    }
    auto a = v.find_first_not_of(" \t"); if (a == v.npos) return ""; return v.substr(a, v.find_last_not_of(" \t") - a + 1);
}
} // namespace nt

// ---- a server connection driven to its end
#include <HXLibs/net/server/ConnectionHandler.hpp>
namespace nt {
struct Quiet { FILE* o = stdout; Quiet() { static FILE* n = ::fopen("/dev/null", "w"); ::fflush(o); stdout = n; } ~Quiet() { stdout = o; } };
template <typename Timeout> void serve(Duplex& d, HX::net::Router<HX::net::HttpIO> const& router, std::atomic_bool const& isRun) {
    Quiet q; HX::coroutine::EventLoop loop; HX::net::ConnectionHandler<HX::net::HttpIO>::start<Timeout>(d.releaseLib(), isRun, router, loop).detach(); loop.run();
}
} // namespace nt

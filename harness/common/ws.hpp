// An independent encoder / decoder of RFC 6455 frames.
#pragma once
#include <common/net.hpp>
#include <openssl/sha.h>
#include <openssl/evp.h>
#include <array>
#include <optional>
namespace wsf {
using pbt::Gen; using pbt::quote;
struct Frame { bool fin = true; int rsv = 0; int op = 1; bool masked = false; std::array<unsigned char, 4> key{}; std::string data; };
inline std::string encode(Frame const& f, std::optional<std::uint64_t> lie = {}, bool lieForm64 = false) {
    std::string w; w += (char)((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.op); std::uint64_t n = lie ? *lie : f.data.size(); int m = f.masked ? 0x80 : 0;
    if (n < 126 && !lieForm64) w += (char)(m | (int)n);
    else if (n < 65536 && !lieForm64) { w += (char)(m | 126); w += (char)(n >> 8); w += (char)n; }
    else { w += (char)(m | 127); for (int i = 7; i >= 0; --i) w += (char)(n >> (8 * i)); }
    if (f.masked) w.append((char const*)f.key.data(), 4);
    std::size_t k = 0; for (char c : f.data) { w += f.masked ? (char)(c ^ f.key[k & 3]) : c; ++k; }
    return w;
}
struct Decoded { Frame f; bool shortest; };
// reads one frame at pos; nothing if it is incomplete
inline std::optional<Decoded> decode(std::string_view w, std::size_t& pos) {
    auto at = [&](std::size_t i) { return (unsigned char)w[i]; }; std::size_t p = pos; if (w.size() - p < 2) return {};
    Decoded d; d.f.fin = at(p) >> 7; d.f.rsv = (at(p) >> 4) & 7; d.f.op = at(p) & 15; d.f.masked = at(p + 1) >> 7; std::uint64_t n = at(p + 1) & 127; p += 2; d.shortest = true;
    if (n == 126) { if (w.size() - p < 2) return {}; n = (std::uint64_t)at(p) << 8 | at(p + 1); p += 2; d.shortest = n >= 126; }
    else if (n == 127) { if (w.size() - p < 8) return {}; n = 0; for (int i = 0; i < 8; ++i) n = n << 8 | at(p + (std::size_t)i); p += 8; d.shortest = n > 65535; }
    if (d.f.masked) { if (w.size() - p < 4) return {}; for (std::size_t i = 0; i < 4; ++i) d.f.key[i] = at(p + i); p += 4; }
    if (w.size() - p < n) return {};
    d.f.data.assign(w.substr(p, n)); if (d.f.masked) for (std::size_t i = 0; i < n; ++i) d.f.data[i] = (char)(d.f.data[i] ^ d.f.key[i & 3]);
    pos = p + n; return d;
}
inline std::string acceptKey(std::string const& key) {
    std::string s = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; unsigned char h[20]; SHA1((unsigned char const*)s.data(), s.size(), h); unsigned char o[64]; int n = EVP_EncodeBlock(o, h, 20); return std::string((char*)o, (std::size_t)n);
}
inline std::string show(Frame const& f) { return std::string(f.fin ? "" : "+") + "op" + std::to_string(f.op) + (f.rsv ? " rsv" + std::to_string(f.rsv) : "") + (f.masked ? "m" : "") + "[" + std::to_string(f.data.size()) + "]"; }
inline std::string payload(Gen& g, std::size_t max = 140000) {
    switch (g.draw(6)) {
    case 0: return "";
    case 1: return g.oneof<std::string>({"a", "hello", "我是", "{\"a\":1}", std::string(1, '\0'), "\xff\xfe"});
    case 2: return g.blob(g.draw(40));
    case 3: return g.blob(g.sizeNear({125, 126, 127}, 300));
    case 4: return g.chance(30, 100) ? std::string(std::min(max, g.sizeNear({65535, 65536, 65537, 131072}, 140000)), (char)('a' + g.draw(26))) + g.blob(g.draw(6)) : g.blob(g.draw(2000));
    default: return g.strUpTo("abc xyz\"\\", 60);
    }
}
inline std::array<unsigned char, 4> key(Gen& g) { std::array<unsigned char, 4> k; for (auto& b : k) b = (unsigned char)g.draw(256); return k; }
// positions inside frame heads, to cut near
inline std::vector<std::size_t> heads(std::string_view w) { std::vector<std::size_t> r; std::size_t p = 0; while (r.size() < 60) { r.push_back(p); if (!decode(w, p)) return r; } return r; }
} // namespace wsf

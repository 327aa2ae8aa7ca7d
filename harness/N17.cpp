#include <common/pbt.hpp>
#include <HXLibs/net/protocol/codec/Base64.hpp>
#include <HXLibs/net/protocol/codec/Base64Url.hpp>
#include <HXLibs/net/protocol/codec/SHA1.hpp>
#include <openssl/evp.h>
#include <openssl/sha.h>
using namespace pbt; using namespace HX;

static std::string refB64(std::string const& s) {
    std::string o(4 * ((s.size() + 2) / 3) + 4, 0);
    int n = EVP_EncodeBlock((unsigned char*)o.data(), (unsigned char const*)s.data(), (int)s.size());
    o.resize((size_t)n); return o;
}
static std::string refUrl(std::string s) {
    s = refB64(s);
    while (!s.empty() && s.back() == '=') s.pop_back();
    for (auto& c : s) c = c == '+' ? '-' : c == '/' ? '_' : c;
    return s;
}
static std::string gen(Gen& g) {
    if (g.chance(1, 6)) return g.blob(g.size(5000));
    return g.bytes(g.sizeNear({3, 55, 56, 63, 64, 119, 128}, 200));
}
static void base64(Gen& g) {
    auto s = gen(g);
    g.describe("base64 of " + quote(s)); g.nontrivial(s.size() > 1); g.label("len%3=" + std::to_string(s.size() % 3));
    std::string copy = s;
    PBT_EQ(net::base64Encode({(uint8_t*)s.data(), s.size()}), refB64(s), "base64Encode of " << quote(copy));
    PBT_EQ(s, copy, "input changed");
}
static void base64url(Gen& g) {
    auto s = gen(g);
    g.describe("base64url of " + quote(s)); g.nontrivial(s.size() > 1); g.label("len%3=" + std::to_string(s.size() % 3));
    auto e = net::base64UrlEncode(std::span<const char>{s.data(), s.size()});
    PBT_EQ(e, refUrl(s), "base64UrlEncode of " << quote(s));
    PBT_EQ(net::base64UrlEncode(std::span<const uint8_t>{(uint8_t const*)s.data(), s.size()}), e, "the two overloads differ");
    PBT_EQ(net::base64UrlDecode(std::string(e)), s, "decode(encode(x)) for " << quote(s));
}
static void decodeAny(Gen& g) {
    // text over the alphabet plus, sometimes, one byte outside
    static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    std::string t = g.str(A, g.size(70));
    bool bad = false;
    if (!t.empty() && g.chance(1, 2)) {
        size_t p = g.draw(t.size()); char c;
        do { c = g.chance(1, 2) ? g.pick(std::string("+/=. \n%@[`{")) : char(g.draw(256)); } while (0);
        t[p] = c; bad = A.find(c) == std::string::npos;
    }
    g.describe("decode " + quote(t)); g.nontrivial(t.size() > 2); g.label(bad ? "outside alphabet" : t.size() % 4 == 1 ? "bad length" : "valid");
    bool threw = false; std::string out;
    try { out = net::base64UrlDecode(std::string_view{std::string(t)}); } catch (std::exception&) { threw = true; }
    if (bad || t.size() % 4 == 1) PBT_CHECK(threw, "text " << quote(t) << " is not base64url but decoded to " << quote(out));
    else {
        PBT_CHECK(!threw, "valid base64url " << quote(t) << " refused or not");
        if (!threw) {
            auto v = [&](char c) { return (unsigned)A.find(c); };
            std::string want; unsigned acc = 0; int nb = 0;
            for (char c : t) { acc = (acc << 6 | v(c)) & 0xffffff; nb += 6; if (nb >= 8) { nb -= 8; want += char(acc >> nb); } }
            // non-zero padding bits are the one spelling freedom: only canonical text is compared strictly
            PBT_EQ(out, want, "decode of " << quote(t));
        }
    }
}
static void sha1(Gen& g) {
    auto s = gen(g);
    int parts = (int)g.range(1, 5);
    g.describe("sha1 of " + std::to_string(s.size()) + " bytes in " + std::to_string(parts) + " updates: " + quote(s, 80));
    g.nontrivial(s.size() > 8); g.label("tail " + std::to_string(s.size() % 64 / 8));
    net::SHA1Context c; size_t p = 0;
    for (int i = 0; i < parts; ++i) {
        size_t n = i + 1 == parts ? s.size() - p : g.draw(s.size() - p + 1);
        std::string piece = s.substr(p, n);
        c.update(piece.data(), n); p += n;
    }
    unsigned char d[20], r[20];
    c.finish(d);
    ::SHA1((unsigned char const*)s.data(), s.size(), r);
    PBT_EQ(std::string((char*)d, 20), std::string((char*)r, 20), "SHA-1 of " << quote(s));
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N17",
        .rule = "byte strings with lengths around 3, 55..64, 119 and random, contents random; non-trivial: at least 2 bytes (3 for decoding, 9 for SHA-1)",
        .assumptions = {"OpenSSL's EVP_EncodeBlock and SHA1 are the reference"}},
        {{"base64", base64, 400000, 8000000}, {"base64url", base64url, 400000, 8000000},
         {"decodeAny", decodeAny, 400000, 8000000}, {"sha1", sha1, 400000, 8000000}});
}

#include <common/pbt.hpp>
#include <set>
#include <thread>
#include <HXLibs/net/token/Token.hpp>
using namespace pbt; using namespace HX;

struct Claims { int64_t id{}; std::string name; std::vector<int> roles; bool admin{}; std::string note; 
    bool operator==(Claims const&) const = default; };
struct K0 { static std::string getKey() { return "0123456789abcdef0123456789abcdef"; } };
struct K1 { static std::string getKey() { return "0123456789abcdef0123456789abcdeg"; } };
struct K2 { static std::string getKey() { return std::string(32, '\0'); } };

static std::string text(Gen& g, std::size_t max) {
    static const std::vector<std::string> cps = {"a", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "{", "}", "é", "中", "😀", "\x01", "-"};
    std::string s; std::size_t n = g.size(max);
    for (std::size_t i = 0; i < n; ++i) s += g.pick(cps);
    return s;
}
static Claims claims(Gen& g) {
    Claims c; c.id = (int64_t)g.draw(0); c.name = text(g, 40);
    std::size_t n = g.size(8); for (std::size_t i = 0; i < n; ++i) c.roles.push_back((int)g.draw(0));
    c.admin = g.boolean(); c.note = text(g, g.chance(1, 10) ? 3000 : 20);
    return c;
}
static std::string enc(int k, Claims const& c) {
    switch (k) { case 0: return net::token::TokenApi::get<K0>().toToken(c); case 1: return net::token::TokenApi::get<K1>().toToken(c);
        case 2: return net::token::TokenApi::get<K2>().toToken(c); default: return net::token::TokenApi::get().toToken(c); }
}
static void dec(int k, Claims& c, std::string const& t) {
    switch (k) { case 0: return net::token::TokenApi::get<K0>().fromToken(c, t); case 1: return net::token::TokenApi::get<K1>().fromToken(c, t);
        case 2: return net::token::TokenApi::get<K2>().fromToken(c, t); default: return net::token::TokenApi::get().fromToken(c, t); }
}
static bool tryDec(int k, Claims& c, std::string const& t) { try { dec(k, c, t); return true; } catch (std::exception&) { return false; } }

static void roundtrip(Gen& g) {
    auto c = claims(g); int k = (int)g.draw(4);
    auto t = enc(k, c);
    g.describe("key " + std::to_string(k) + " claims name=" + quote(c.name, 60) + " note " + std::to_string(c.note.size()) + "B -> " + std::to_string(t.size()) + " chars");
    g.nontrivial(c.name.size() > 1);
    for (char ch : t) PBT_CHECK(isalnum((unsigned char)ch) || ch == '-' || ch == '_', "token is not URL safe: " << quote(t));
    Claims d; dec(k, d, t);
    PBT_CHECK(c == d, "token decodes to different claims: name " << quote(d.name) << " id " << d.id);
    auto t2 = enc(k, c);
    PBT_CHECK(t != t2, "two encodings are identical");
    // the random part (first 16 characters: the nonce) must differ too, else nonces repeat under one key
    PBT_CHECK(t.substr(0, 16) != t2.substr(0, 16), "nonce repeated");
    int k2 = (int)((unsigned)k + 1 + g.draw(3)) % 4;
    Claims e; PBT_CHECK(!tryDec(k2, e, t), "token of key " << k << " accepted under key " << k2);
    // failures must not disturb later use of the same codec
    Claims f; dec(k, f, t2); PBT_CHECK(c == f, "second token decodes differently");
}
static void tamper(Gen& g) {
    auto c = claims(g); if (c.note.size() > 200) c.note.resize(0);
    int k = (int)g.draw(4); auto t = enc(k, c);
    std::string raw = net::base64UrlDecode(t), r2 = raw;      // bytes behind the token
    int ops = (int)g.range(1, 3); std::string what;
    for (int i = 0; i < ops && !r2.empty(); ++i) {
        std::size_t p = g.draw(r2.size());
        switch (g.draw(6)) {
        case 0: r2[p] = char(r2[p] ^ (1 << g.draw(8))); what += " flip@" + std::to_string(p); break;
        case 1: r2.erase(p, 1 + g.draw(3)); what += " erase@" + std::to_string(p); break;
        case 2: r2.insert(p, 1, char(g.draw(256))); what += " insert@" + std::to_string(p); break;
        case 3: r2.resize(p); what += " cut@" + std::to_string(p); break;
        case 4: r2 += char(g.draw(256)); what += " append"; break;
        case 5: { std::size_t q = g.draw(r2.size()); std::swap(r2[p], r2[q]); what += " swap"; break; }
        }
    }
    if (r2 == raw) discard();
    g.describe("tamper:" + what + " of " + std::to_string(raw.size())); g.nontrivial();
    std::string t2 = net::base64UrlEncode(std::span<const char>{r2.data(), r2.size()});
    Claims d; PBT_CHECK(!tryDec(k, d, t2), "tampered token accepted:" << what);
    Claims e; dec(k, e, t); PBT_CHECK(e == c, "the genuine token no longer decodes after a rejected one");
}
static void tamperText(Gen& g) {
    Claims c; c.id = (int64_t)g.draw(1000); c.name = g.str("abc", g.draw(6));
    int k = (int)g.draw(4); auto t = enc(k, c), t2 = t;
    static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=+/. \n";
    switch (g.draw(4)) {
    case 0: t2[g.draw(t2.size())] = A[g.draw(A.size())]; break;
    case 1: t2 = t2.substr(0, g.draw(t2.size())); break;
    case 2: t2 += g.str(A, 1 + g.draw(4)); break;
    case 3: t2 = g.str(A, g.draw(120)); break;
    }
    if (t2 == t) discard();
    g.describe("text tamper " + quote(t) + " -> " + quote(t2)); g.nontrivial();
    // a different text that denotes the same bytes (unused trailing bits) is not a change of the token
    bool same = false; try { same = net::base64UrlDecode(t2) == net::base64UrlDecode(t)
        && t2.size() == t.size() && t2.substr(0, t2.size() - 1) == t.substr(0, t.size() - 1); } catch (std::exception&) {}
    Claims d; bool ok = tryDec(k, d, t2);
    if (same) { g.label("unused bits"); PBT_CHECK(!ok || d == c, "payload changed"); return; }
    PBT_CHECK(!ok, "altered token text accepted: " << quote(t2) << " for " << quote(t));
}
// many encodings, on one or several threads: neither the text nor the nonce ever comes back
static void bursts(Gen& g) {
    int k = (int)g.draw(4); std::size_t threads = 1 + g.draw(4), n = 1 + g.size(1500); Claims c; c.id = 7; c.name = text(g, 4);
    g.describe(std::to_string(n) + " encodings of one payload on each of " + std::to_string(threads) + " threads"); g.nontrivial(n > 1);
    std::vector<std::vector<std::string>> out(threads); std::vector<std::thread> ts;
    for (std::size_t i = 0; i < threads; ++i) ts.emplace_back([&, i] { for (std::size_t q = 0; q < n; ++q) out[i].push_back(enc(k, c)); });
    for (auto& t : ts) t.join();
    std::set<std::string> seen; std::size_t i = 0;
    for (auto& v : out) for (auto& t : v) { ++i; PBT_CHECK(seen.insert(t.substr(0, 16)).second, "the nonce of encoding " << i << " was used before"); }
    Claims d; auto const& t = out[g.draw(threads)][g.draw(n)]; dec(k, d, t); PBT_CHECK(d == c, "one of the tokens decodes to a different payload");
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N18",
        .rule = "payload structs with integers, booleans, lists and Unicode/escape-heavy text under four keys; 1-3 byte-level edits of the token or edits of its text; non-trivial: a real edit or a name of 2+ characters",
        .assumptions = {"a random nonce collision in 96 bits does not occur"}},
        {{"roundtrip", roundtrip, 60000, 3000000}, {"tamper", tamper, 90000, 3000000}, {"tamperText", tamperText, 90000, 3000000}, {"bursts", bursts, 150, 3000}});
}

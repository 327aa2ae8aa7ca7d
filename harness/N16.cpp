#include <common/pbt.hpp>
#include <HXLibs/net/protocol/url/UrlParse.hpp>
// technique: property-based testing: URLs assembled from generated parts, decomposed by the library, compared with the parts
using namespace pbt; using namespace HX::net;

struct Url { std::string scheme, account, password, host, port, path, query; bool hasScheme, hasUser, hasPass, hasQuery; 
    std::string authority() const { return (hasUser ? account + (hasPass ? ":" + password : "") + "@" : "") + host + (port.empty() ? "" : ":" + port); }
    std::string target() const { return path + (hasQuery ? "?" + query : ""); }
    std::string text() const { return (hasScheme ? scheme + "://" : "") + authority() + target(); } };
static char const* kSchemes[] = {"http", "https", "ws", "wss", "ftp", "socks5", "ssh"};
static const std::map<std::string, int> kPorts{{"http", 80}, {"https", 443}, {"ws", 80}, {"wss", 443}, {"ftp", 21}, {"ssh", 22}, {"ftps", 990}, {"sftp", 22}, {"smtp", 25}, {"pop3", 110},
    {"imap", 143}, {"ldap", 389}, {"ldaps", 636}, {"telnet", 23}, {"dns", 53}, {"dhcp", 67}};
static std::string part(Gen& g, char const* special, std::size_t max) {
    std::string s; std::size_t n = g.size(max); std::string sp = special;
    for (std::size_t i = 0; i < n; ++i) switch (g.draw(5)) {
        case 0: case 1: s += char('a' + g.draw(26)); break;
        case 2: s += g.pick(std::string("0123456789ABCXYZ-._~")); break;
        case 3: s += "%" + g.str("0123456789ABCDEF", 2); break;
        default: if (!sp.empty()) s += g.pick(sp); break; }
    return s;
}
static std::string host(Gen& g) {
    switch (g.draw(5)) {
    case 0: return "localhost";
    case 1: return std::to_string(g.draw(256)) + "." + std::to_string(g.draw(256)) + "." + std::to_string(g.draw(256)) + "." + std::to_string(g.draw(256));
    default: { std::string h; int n = 1 + (int)g.draw(4);
        for (int i = 0; i < n; ++i) { if (i) h += '.'; h += g.str("abcxyz0189AZ", 1); std::size_t m = g.size(10); if (m) { h += g.str("abcxyz0189-", m - 1); h += g.str("abc09", 1); } }
        return h; } }
}
static Url make(Gen& g) {
    Url u;
    u.hasScheme = g.chance(5, 6); u.scheme = g.oneof<std::string>({kSchemes[0], kSchemes[1], kSchemes[2], kSchemes[3], kSchemes[4], kSchemes[5], kSchemes[6]});
    u.hasUser = g.chance(1, 3); u.hasPass = u.hasUser && g.chance(4, 5);
    u.account = "u" + part(g, "!$&'()*+,;=", 6); u.password = part(g, "!$&'()*+,;=:", 8);
    u.host = host(g);
    if (g.boolean()) u.port = std::to_string(g.chance(1, 2) ? 1 + g.draw(65535) : g.oneof<unsigned>({1, 80, 443, 8080, 65535, 65534}));
    if (g.chance(3, 4)) { int n = 1 + (int)g.draw(3); for (int i = 0; i < n; ++i) u.path += "/" + part(g, "!$&'()*+,;=:@", 8); if (g.chance(1, 8)) u.path += "/http://x.y:9/a@b"; }
    u.hasQuery = g.boolean();
    if (u.hasQuery) { u.query = part(g, "!$&'()*+,;=:@/?", 14); if (g.chance(1, 6)) u.query += "u=ftp://me:pw@other.org:21/z?y"; }
    return u;
}
static void parts(Gen& g) {
    Url u = make(g); std::string t = u.text();
    g.describe(t); g.nontrivial(t.size() > u.host.size() + 8);
    if (u.hasUser) g.label("user"); if (!u.port.empty()) g.label("port"); if (!u.hasScheme) g.label("noscheme"); if (u.hasQuery && u.path.empty()) g.label("query without path");
    std::string exact = t; auto sv = std::string_view{exact};
    if (u.hasScheme) {
        PBT_EQ(std::string(UrlParse::extractProtocol(sv)), u.scheme, "scheme of " << t);
        std::string rest = t; PBT_EQ(UrlParse::removeProtocol(rest), u.scheme, "scheme removed from " << t); PBT_EQ(rest, u.authority() + u.target(), "rest of " << t);
    }
    PBT_EQ(UrlParse::extractDomainName(t), u.host, "host of " << t);
    UrlInfoExtractor x{sv};
    PBT_EQ(std::string(x.getHostname()), u.host, "host of " << t);
    PBT_EQ(std::string(x.getService()), u.port.empty() ? (u.hasScheme ? u.scheme : "http") : u.port, "service of " << t);
    if (!u.port.empty()) PBT_EQ((int)UrlParse::getProtocolPort(x.getService()), std::stoi(u.port), "port of " << t);
    else if (kPorts.count(std::string(x.getService()))) PBT_EQ((int)UrlParse::getProtocolPort(x.getService()), kPorts.at(std::string(x.getService())), "default port of " << t);
    std::string target = u.target(); if (target.empty() || target[0] == '?') target = "/" + target;
    PBT_EQ(std::string(UrlParse::extractPath(sv)), target, "path of " << t);
    auto acc = UrlParse::extractUser(sv);
    PBT_EQ(acc.has_value(), u.hasUser, "credentials of " << t);
    if (acc) { PBT_EQ(std::string(acc->account), u.account, "account of " << t); PBT_EQ(std::string(acc->password), u.hasPass ? u.password : "", "password of " << t); }
    if (u.hasScheme && (u.scheme == "ws" || u.scheme == "wss"))
        PBT_EQ(UrlParse::extractWsOrigin(sv), (u.scheme == "ws" ? "http://" : "https://") + u.host + (u.port.empty() ? "" : ":" + u.port), "origin of " << t);
}
static void ports(Gen& g) {
    std::string s;
    if (g.chance(1, 3)) { auto it = kPorts.begin(); std::advance(it, g.draw(kPorts.size())); s = it->first; }
    else if (g.boolean()) s = std::to_string(g.draw(g.boolean() ? 65536 : 200000));
    else s = g.str("0123456789htpsw-+ x", 1 + g.size(8));
    g.describe("port of " + quote(s)); g.nontrivial(s.size() > 1);
    std::unique_ptr<char[]> b(new char[s.size()]); std::memcpy(b.get(), s.data(), s.size());      // no terminator
    long exp = -1;
    if (kPorts.count(s)) exp = kPorts.at(s);
    else if (s.size() < 15 && s.find_first_not_of("0123456789") == s.npos && std::stoll(s) <= 65535) exp = (long)std::stoll(s);
    long got = -1; try { got = UrlParse::getProtocolPort(std::string_view{b.get(), s.size()}); } catch (std::exception&) {}
    PBT_EQ(got, exp, "port for " << quote(s));
}
static void garbage(Gen& g) {
    std::string t = g.boolean() ? make(g).text() : std::string{};
    int n = (int)g.draw(6); for (int i = 0; i < n; ++i) { std::size_t p = g.draw(t.size() + 1); if (g.chance(1, 3) && p < t.size()) t.erase(p, 1); else t.insert(p, 1, g.pick(std::string(":/@?#.[]ah1%\0", 13))); }
    g.describe(t); g.nontrivial(t.size() > 3);
    std::unique_ptr<char[]> b(new char[t.size()]); std::memcpy(b.get(), t.data(), t.size());
    std::string_view sv{b.get(), t.size()};
    volatile std::size_t sum = 0; auto tr = [&](auto f) { try { sum += f(); } catch (std::exception&) {} };
    tr([&] { auto p = UrlParse::extractPath(sv); PBT_CHECK(!p.empty() && p[0] == '/', "path " << quote(p) << " of " << quote(t)); return p.size(); });
    tr([&] { return UrlParse::extractProtocol(sv).size(); });
    tr([&] { auto a = UrlParse::extractUser(sv); std::size_t k = 0; if (a) { for (char c : a->account) k += (unsigned char)c; for (char c : a->password) k += (unsigned char)c; } return k; });
    tr([&] { return UrlParse::extractDomainName(t).size(); });
    tr([&] { return UrlParse::extractWsOrigin(sv).size(); });
    tr([&] { UrlInfoExtractor x{sv}; return x.getHostname().size() + x.getService().size(); });
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N16",
        .rule = "URLs assembled from generated scheme, credentials, host, port, path and query, each over the characters RFC 3986 allows there; non-trivial: more than a bare host",
        .assumptions = {"IPv6 literals and fragments are outside the property"}},
        {{"parts", parts, 150000, 6000000}, {"ports", ports, 60000, 1000000}, {"garbage", garbage, 80000, 4000000}});
}

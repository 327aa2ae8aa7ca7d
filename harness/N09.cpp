// technique: property-based testing: texts of values, of near-values and of arbitrary bytes converted to every offered type, against a grammar and exact reference conversions
// opt: -O1
#include <common/pbt.hpp>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/router/RequestParsing.hpp>
#include <cmath>
using namespace HX; using namespace HX::net; using pbt::Gen; using pbt::quote;

struct Exact { char* p; std::size_t n; explicit Exact(std::string const& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { std::memcpy(p, s.data(), n); } ~Exact() { delete[] p; } std::string_view v() const { return {p, n}; } };   // over-reads are seen
template <typename T> static std::optional<T> conv(std::string const& s) { Exact e(s); try { return PathParam{e.v()}.template to<T>(); } catch (std::exception const&) { return {}; } }
template <typename T> static std::optional<T> conv2(std::string const& s) { Exact e(s); return TypeInterpretation<T>::wildcardElementTypeConversion(e.v()); }
static constexpr std::string_view kBytes = "0123456789+-.eExXabtrueFALSEnif_,;:%~ \t\x80\xff";
static std::string junk(Gen& g) { return g.chance(80, 100) ? g.strUpTo(kBytes, 6, 1) : g.bytes(1 + g.draw(3)); }
// an integer by its grammar: optional '-' for signed types, then digits; value computed with unbounded carry
template <typename T> static std::optional<T> refInt(std::string const& s) {
    std::size_t i = 0; bool neg = false; if (std::is_signed_v<T> && !s.empty() && s[0] == '-') { neg = true; i = 1; } if (i == s.size()) return {};
    unsigned __int128 v = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return {}; v = v * 10 + (unsigned)(s[i] - '0'); if (v > (unsigned __int128)1 << 70) v = (unsigned __int128)1 << 70; }
    if (neg) { if (v > (unsigned __int128)1 << (8 * sizeof(T) - 1)) return {}; return (T)(0 - (std::uint64_t)v); }
    if (v > (unsigned __int128)std::numeric_limits<T>::max()) return {}; return (T)v;
}
static std::string intText(Gen& g, int bits) {
    std::string s; switch (g.draw(6)) {
    case 0: { s = std::to_string((long long)g.draw(300) - 150); break; }
    case 1: { unsigned __int128 v = ((unsigned __int128)1 << (bits - (int)g.draw(2))); std::int64_t d = (std::int64_t)g.draw(5) - 2; v += (unsigned __int128)(__int128)d; if (!v) s = "0"; while (v) { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } if (g.boolean()) s = "-" + s; break; }
    case 2: s = std::to_string((long long)g.draw(0)); break;
    case 3: s = g.strUpTo("0123456789", 25, 1); if (g.boolean()) s = "-" + s; break;
    case 4: s = std::string(g.draw(4), '0') + std::to_string(g.draw(1000)); if (g.chance(30, 100)) s = "-" + s; break;
    case 5: s = g.strUpTo(kBytes, 5); break; }
    if (g.chance(30, 100)) { auto j = junk(g); s.insert(g.chance(60, 100) ? s.size() : g.draw(s.size() + 1), j); }
    return s;
}
template <typename T> static void one(Gen& g) {
    auto s = intText(g, (int)sizeof(T) * 8); auto want = refInt<T>(s); g.describe(quote(s)); g.nontrivial(s.size() > 1); g.label(want ? "number" : "refused");
    auto got = conv<T>(s); auto say = [](std::optional<T> const& o) { return o ? std::to_string(*o) : std::string("refused"); };
    if (!want && !s.empty() && s[0] == '+' && refInt<T>(s.substr(1))) { if (got) PBT_EQ(say(got), say(refInt<T>(s.substr(1))), quote(s)); return; }
    PBT_EQ(say(got), say(want), quote(s) + " as a " + (std::is_signed_v<T> ? "signed " : "unsigned ") + std::to_string(8 * sizeof(T)) + "-bit integer");
    if constexpr (requires { TypeInterpretation<T>::wildcardElementTypeConversion(std::string_view{}); } && sizeof(T) > 1) PBT_EQ(say(conv2<T>(s)), say(want), quote(s) + " through TypeInterpretation");
}
static void ints(Gen& g) {
    switch (g.draw(10)) { case 0: return one<std::int8_t>(g); case 1: return one<std::uint8_t>(g); case 2: return one<std::int16_t>(g); case 3: return one<std::uint16_t>(g); case 4: return one<std::int32_t>(g); case 5: return one<std::uint32_t>(g); case 6: return one<std::int64_t>(g); case 7: return one<std::uint64_t>(g); case 8: return one<std::int64_t>(g); default: return one<std::uint64_t>(g); }
}
static std::string floatText(Gen& g) {
    std::string s; char b[400]; switch (g.draw(5)) {
    case 0: { double d; std::uint64_t u = g.draw(0); std::memcpy(&d, &u, 8); if (!std::isfinite(d)) d = 1.5; std::snprintf(b, sizeof b, g.boolean() ? "%.17g" : "%.3e", d); s = b; break; }
    case 1: s = g.strUpTo("0123456789", 8, 1) + "." + g.strUpTo("0123456789", 20, 1); break;
    case 2: s = g.strUpTo("123456789", 3, 1) + (g.boolean() ? "." + g.strUpTo("0123456789", 4, 1) : "") + g.oneof<std::string>({"e", "E"}) + g.oneof<std::string>({"", "+", "-"}) + std::to_string(g.draw(g.boolean() ? 30 : 330)); break;
    case 3: s = std::to_string((long long)g.draw(0) >> g.draw(64)); break;
    case 4: s = g.strUpTo(kBytes, 5); break; }
    if (g.chance(15, 100)) s = "-" + s; if (g.chance(25, 100)) s.insert(g.chance(60, 100) ? s.size() : g.draw(s.size() + 1), junk(g));
    return s;
}
// -?digits[.digits][e[+-]digits], also with one side of the point empty
static int floatGrammar(std::string const& s) {      // 1 number, 0 no number, 2 either is fine
    std::size_t i = 0; auto digits = [&] { std::size_t k = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i; return i - k; };
    if (s.empty()) return 0; if (s[0] == '+') return 2; if (s[0] == '-') ++i; auto a = digits(); std::size_t b = 0; if (i < s.size() && s[i] == '.') { ++i; b = digits(); if (!a || !b) { if (!a && !b) return 0; return 2; } }
    if (!a && !b) { std::string t = s.substr(s[0] == '-'); for (auto& c : t) c = (char)std::tolower((unsigned char)c); return t == "inf" || t == "nan" || t == "infinity" ? 2 : 0; }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; if (!digits()) return 0; }
    return i == s.size();
}
template <typename T> static T strto(char const* s) { if constexpr (std::is_same_v<T, float>) return std::strtof(s, nullptr); else return std::strtod(s, nullptr); }
template <typename T> static void oneF(Gen& g) {
    auto s = floatText(g); int k = s.find('\0') != s.npos ? 0 : floatGrammar(s); g.describe(quote(s)); g.nontrivial(s.size() > 2); g.label(k == 1 ? "number" : "refused"); if (k == 2) return;
    T ref = k ? strto<T>(s.c_str()) : T(0); bool range = k && (std::isinf(ref) || std::fpclassify(ref) == FP_SUBNORMAL || (ref == 0 && s.find_first_of("123456789") != s.npos && s.find_first_of("123456789") < std::min(s.find_first_of("eE"), s.size())));
    auto check = [&](std::optional<T> got, char const* how, bool strict) {
        if (!k) { PBT_CHECK(!got, how << ": " << quote(s) << " is no number but was converted to " << *got); return; }
        if (range) { if (std::isinf(ref)) { if (strict) PBT_CHECK(!got, how << ": " << quote(s) << " is out of range but was converted to " << *got); } else if (got) PBT_CHECK(std::abs(*got) <= std::numeric_limits<T>::min(), how << ": " << quote(s) << " was converted to " << *got); return; }
        PBT_CHECK(got, how << ": " << quote(s) << " was refused"); PBT_CHECK(std::memcmp(&*got, &ref, sizeof(T)) == 0, how << ": " << quote(s) << " was converted to " << std::to_string(*got) << " instead of " << std::to_string(ref));
    };
    check(conv<T>(s), "to", true);
    bool hexOrSpace = s.find_first_of("xX \t\v\f\r\n") != s.npos; if (!hexOrSpace) check(conv2<T>(s), "TypeInterpretation", false);
}
static void floats(Gen& g) { if (g.boolean()) oneF<double>(g); else oneF<float>(g); }
static void bools(Gen& g) {
    std::string s = g.oneof<std::string>({"true", "false", "0", "1", "tru", "fals", "", "2", "yes"}); for (auto& c : s) if (g.chance(40, 100)) c = (char)std::toupper((unsigned char)c);
    if (g.chance(40, 100)) s.insert(g.chance(60, 100) ? s.size() : g.draw(s.size() + 1), g.chance(60, 100) ? g.strUpTo("0tTruefals1 ", 3, 1) : junk(g)); if (g.chance(25, 100) && !s.empty()) { auto& c = s[g.draw(s.size())]; c = (char)(c ^ (1 << g.draw(8))); }
    auto low = s; for (auto& c : low) if (c >= 'A' && c <= 'Z') c = char(c + 32); std::optional<bool> want; if (low == "true" || s == "1") want = true; if (low == "false" || s == "0") want = false;
    g.describe(quote(s)); g.nontrivial(s.size() > 1); g.label(want ? "boolean" : "refused"); auto say = [](std::optional<bool> o) { return o ? *o ? "true" : "false" : "refused"; };
    PBT_EQ(std::string(say(conv<bool>(s))), say(want), quote(s)); PBT_EQ(std::string(say(conv2<bool>(s))), say(want), quote(s) + " through TypeInterpretation");
}
enum class Kind : int { Red, Green, Blue, Red2, _x = 7, Neg = -3 }; enum Plain : unsigned char { P_a, P_ab, P_abc };
static void enums(Gen& g) {
    static const std::map<std::string, int> ks{{"Red", 0}, {"Green", 1}, {"Blue", 2}, {"Red2", 3}, {"_x", 7}, {"Neg", -3}}, ps{{"P_a", 0}, {"P_ab", 1}, {"P_abc", 2}}; bool plain = g.boolean(); auto const& m = plain ? ps : ks;
    std::string s = std::next(m.begin(), (long)g.draw(m.size()))->first; if (g.chance(40, 100)) s.insert(g.chance(60, 100) ? s.size() : g.draw(s.size() + 1), g.chance(50, 100) ? g.strUpTo("ab2_R", 2, 1) : junk(g)); if (g.chance(20, 100)) s = s.substr(0, g.draw(s.size() + 1)); if (g.chance(5, 100)) s = std::to_string(g.draw(5));
    std::optional<int> want; if (auto it = m.find(s); it != m.end()) want = it->second; g.describe(quote(s)); g.nontrivial(); g.label(want ? "name" : "refused"); std::optional<int> got; if (plain) { if (auto v = conv<Plain>(s)) got = *v; } else if (auto v = conv<Kind>(s)) got = (int)*v;
    auto say = [](std::optional<int> o) { return o ? std::to_string(*o) : std::string("refused"); }; PBT_EQ(say(got), say(want), quote(s));
}
static void strings(Gen& g) { auto s = g.boolean() ? g.strUpTo(kBytes, 20) : g.blob(g.size(40)); g.describe(quote(s)); g.nontrivial(s.size() > 2); Exact e(s); PBT_EQ((PathParam{e.v()}.to<std::string>()), s, "string"); PBT_EQ(std::string(PathParam{e.v()}.to<std::string_view>()), s, "view"); PBT_EQ(std::string(static_cast<std::string_view>(PathParam{e.v()})), s, "conversion"); PBT_EQ(std::string(*conv2<std::string>(s)), s, "TypeInterpretation"); }
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N09",
        .rule = "texts of numbers around the limits of every type, with leading zeros, signs, fractions and exponents, texts with inserted foreign characters, and arbitrary bytes, in exactly sized buffers; non-trivial: more than a character",
        .assumptions = {"a leading + and forms like .5, 5., inf and nan may be accepted or refused", "values below the smallest normal number may be refused"}},
        {{"ints", ints, 200000, 10000000}, {"floats", floats, 150000, 8000000}, {"bools", bools, 60000, 2000000}, {"enums", enums, 60000, 2000000}, {"strings", strings, 20000, 500000}});
}

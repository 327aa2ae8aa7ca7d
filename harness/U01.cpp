// technique: property-based testing: string, number-base, byte-order, fixed-string and date helpers against naive reference definitions and inverses
// opt: -O1
#include <common/pbt.hpp>
#include <sys/syscall.h>
#include <unistd.h>
#include <HXLibs/utils/StringUtils.hpp>
#include <HXLibs/utils/NumericBaseConverter.hpp>
#include <HXLibs/utils/ByteUtils.hpp>
#include <HXLibs/utils/TimeNTTP.hpp>
#include <HXLibs/meta/FixedString.hpp>
#include <HXLibs/net/protocol/http/Http.hpp>
#include <HXLibs/net/protocol/http/MimeType.hpp>
using namespace HX; using namespace HX::utils; using pbt::Gen; using pbt::quote;

// ---- splitting: reference is a left-to-right scan for the delimiter
static std::vector<std::pair<std::size_t, std::string>> refSplit(std::string const& s, std::string const& d, bool skip) {
    std::vector<std::pair<std::size_t, std::string>> r; if (s.empty()) return r; std::size_t start = 0, i = 0;
    auto emit = [&](std::size_t e) { if (e > start || !skip) r.emplace_back(start, std::string(s.begin() + (long)start, s.begin() + (long)e)); };
    while (i + d.size() <= s.size()) { if (std::equal(d.begin(), d.end(), s.begin() + (long)i)) { emit(i); i += d.size(); start = i; } else ++i; }
    emit(s.size()); return r;
}
static void split(Gen& g) {
    std::string d = g.chance(60, 100) ? g.str("/,&-", 1) : g.strUpTo("ab/\r\n", 3, 1);
    std::string s; std::size_t n = g.size(12); for (std::size_t i = 0; i < n; ++i) { if (g.chance(45, 100)) s += d; else if (g.chance(30, 100)) s += d.substr(0, g.draw(d.size() + 1)); else s += g.chance(10, 100) ? g.bytes(2) : g.strUpTo("abc/=,", 4); }
    g.describe(quote(s) + " by " + quote(d)); g.nontrivial(s.find(d) != s.npos && s.size() > d.size());
    auto strip = [](auto const& v) { std::vector<std::string> r; for (auto& p : v) r.emplace_back(p.second); return r; };
    auto str = [](auto const& v) { std::vector<std::string> r; for (auto& p : v) r.emplace_back(p); return r; };
    auto pairs = [](auto const& v) { std::vector<std::pair<std::size_t, std::string>> r; for (auto& p : v) r.emplace_back(p.first, std::string(p.second)); return r; };
    auto keep = refSplit(s, d, false), skip = refSplit(s, d, true);
    PBT_EQ((str(StringUtil::split<std::string>(s, d))), strip(skip), "split (skipping empty)");
    PBT_EQ((str(StringUtil::split<std::string_view>(s, d))), strip(skip), "split into views");
    PBT_EQ((str(StringUtil::split<std::string, false>(s, d))), strip(keep), "split (keeping empty)");
    PBT_EQ((pairs(StringUtil::splitWithPos<std::string_view>(s, d))), skip, "splitWithPos");
    PBT_EQ((pairs(StringUtil::splitWithPos<std::string, false>(s, d))), keep, "splitWithPos (keeping empty)");
    std::vector<std::string> pre{"x", ""}; auto want = pre; for (auto& p : skip) want.push_back(p.second);
    PBT_EQ((StringUtil::split<std::string>(s, d, pre)), want, "split appends to the given elements");
    if (!s.empty()) { std::string j; bool first = true; for (auto& e : StringUtil::split<std::string, false>(s, d)) { if (!first) j += d; first = false; j += e; } PBT_EQ(j, s, "joining the pieces restores the text"); }
    auto p = s.find(d); auto [a, b] = StringUtil::splitAtFirst(s, d);
    PBT_EQ(a, p == s.npos ? "" : s.substr(0, p), "splitAtFirst, left"); PBT_EQ(b, p == s.npos ? "" : s.substr(p + d.size()), "splitAtFirst, right");
    auto q = s.rfind(d); PBT_EQ(StringUtil::rfindAndTrim(s, d), q == s.npos ? s : s.substr(q + d.size()), "rfindAndTrim");
}
static void cases(Gen& g) {
    std::string s = g.chance(50, 100) ? g.blob(g.size(80)) : g.strUpTo("abcXYZ012_-@[`{ :/\xc3\xa9\x7f~^", 70);
    g.describe(quote(s)); g.nontrivial(s.size() > 8);
    std::string lo = s, up = s, rl = s, ru = s; StringUtil::toLower(lo); StringUtil::toUpper(up);
    for (auto& c : rl) if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
    for (auto& c : ru) if (c >= 'a' && c <= 'z') c = char(c - 'a' + 'A');
    PBT_EQ(lo, rl, "toLower of " << quote(s)); PBT_EQ(up, ru, "toUpper of " << quote(s));
    std::vector<char> buf; std::string r = g.strUpTo("ab", 3); StringUtil::append(buf, r); StringUtil::append(buf, s); PBT_EQ(std::string(buf.begin(), buf.end()), r + s, "append");
}
// ---- number bases
template <typename T, T Base> static void base(Gen& g) {
    using U = std::make_unsigned_t<T>;
    U m = (U)std::numeric_limits<T>::max(), v = g.chance(40, 100) ? (U)(m - (U)g.draw(3)) : (U)(g.draw(0) >> g.draw(64)); if (v > m) v %= m; std::string s; U x = v;
    do { int d = int(x % (U)Base); s.insert(s.begin(), char(d < 10 ? '0' + d : (g.boolean() ? 'a' : 'A') + d - 10)); x = (U)(x / (U)Base); } while (x);
    std::size_t zeros = g.chance(30, 100) ? g.draw(4) : 0; s.insert(0, zeros, '0');
    g.describe("base " + std::to_string((long)Base) + " " + s); g.nontrivial(s.size() > 2);
    PBT_EQ((NumericBaseConverter::strToNum<T, Base>(s)), (T)v, "strToNum of " << s << " in base " << (long)Base);
    PBT_EQ((NumericBaseConverter::strToNum<T, Base>(std::string_view(s))), (T)v, "strToNum of " << s << " in base " << (long)Base);
}
static void bases(Gen& g) {
    switch (g.draw(14)) {
    case 0: return base<std::size_t, 16>(g); case 1: return base<std::size_t, 10>(g); case 2: return base<std::size_t, 2>(g); case 3: return base<int, 10>(g); case 4: return base<int, 16>(g);
    case 5: return base<std::int64_t, 36>(g); case 6: return base<std::uint64_t, 36>(g); case 7: return base<std::uint32_t, 8>(g); case 8: return base<std::uint16_t, 16>(g); case 9: return base<std::int64_t, 10>(g);
    case 10: return base<std::int8_t, 10>(g); case 11: return base<std::uint8_t, 16>(g); case 12: return base<std::uint64_t, 11>(g);
    default: {
        std::size_t v = g.draw(0) >> g.draw(64); auto s = NumericBaseConverter::hexadecimalConversion(v); char b[40]; std::snprintf(b, sizeof b, "%zX", v);
        g.describe("hex " + std::string(b)); g.nontrivial(v > 15); PBT_EQ(s, std::string(b), "hexadecimalConversion of " << v); PBT_EQ((NumericBaseConverter::strToNum<std::size_t, 16>(s)), v, "round trip of " << v); }
    }
}
template <typename T> static void swapT(Gen& g) {
    T v; std::string raw = g.bytes(sizeof(T)); std::memcpy(&v, raw.data(), sizeof v);
    g.describe(quote(raw)); g.nontrivial(sizeof(T) > 1);
    auto bytesOf = [](T x) { std::string r(sizeof x, 0); std::memcpy(r.data(), &x, sizeof x); return r; };
    T w = ByteUtils::byteswap(v); std::string rev(raw.rbegin(), raw.rend()); PBT_EQ(bytesOf(w), rev, "byteswap reverses the bytes"); PBT_EQ(bytesOf(ByteUtils::byteswap(w)), raw, "byteswap is its own inverse");
    PBT_EQ(bytesOf(ByteUtils::byteswapIfLittle(v)), std::endian::native == std::endian::little ? rev : raw, "byteswapIfLittle");
}
static void swaps(Gen& g) { switch (g.draw(7)) { case 0: return swapT<std::uint8_t>(g); case 1: return swapT<std::uint16_t>(g); case 2: return swapT<std::int16_t>(g); case 3: return swapT<std::uint32_t>(g); case 4: return swapT<std::int64_t>(g); default: return swapT<std::uint64_t>(g); } }

// ---- fixed strings: built from generated text of every length up to 12
template <std::size_t N, std::size_t M> static void fixedNM(Gen& g) {
    using meta::FixedString; std::string a = g.str("ab%\xff ", N), b = g.boolean() ? a.substr(0, std::min(N, M)) + g.str("ab", M - std::min(N, M)) : g.str("ab%", M);
    FixedString<N + 1> fa{std::string_view(a)}; FixedString<M + 1> fb{std::string_view(b)};
    g.describe(quote(a) + " " + quote(b)); g.nontrivial(N + M > 2);
    PBT_EQ(std::string(std::string_view(fa)), a, "text"); PBT_EQ(fa.size(), N, "size"); PBT_EQ(fa.literalSize(), N + 1, "literalSize"); for (std::size_t i = 0; i < N; ++i) PBT_EQ(fa[i], a[i], "character");
    PBT_EQ(std::string(std::string_view(fa + fb)), a + b, "concatenation"); PBT_EQ(std::string(std::string_view(fa + "-x")), a + "-x", "literal on the right"); PBT_EQ(std::string(std::string_view("y:" + fa)), "y:" + a, "literal on the left");
    PBT_EQ(fa == fb, a == b, "equality of " << quote(a) << " and " << quote(b));
    if constexpr (N == M) { auto c = fa <=> fb; int r = 0; for (std::size_t i = 0; i < N && !r; ++i) r = a[i] < b[i] ? -1 : a[i] > b[i]; PBT_EQ(c < 0 ? -1 : c > 0, r, "ordering"); }
}
template <std::size_t N> static void fixedN(Gen& g) { switch (g.draw(6)) { case 0: return fixedNM<N, 0>(g); case 1: return fixedNM<N, 1>(g); case 2: return fixedNM<N, 3>(g); case 3: return fixedNM<N, 7>(g); default: return fixedNM<N, N>(g); } }
static void fixed(Gen& g) { switch (g.draw(6)) { case 0: return fixedN<0>(g); case 1: return fixedN<1>(g); case 2: return fixedN<2>(g); case 3: return fixedN<3>(g); case 4: return fixedN<7>(g); default: return fixedN<12>(g); } }
namespace ct {
using namespace meta; using namespace meta::fixed_string_literals; using namespace utils::time_nttp_literals;
static_assert("abc"_fs == "abc"_fs && !("abc"_fs == "abd"_fs) && !("ab"_fs == "abc"_fs));
static_assert("ab"_fs + "c"_fs == "abc"_fs && "a" + "bc"_fs == "abc"_fs && "ab"_fs + "c" == "abc"_fs);
static_assert(meta::find<"b", "a", "b", "c">() == 1 && meta::find<"c", "a", "bc", "c", "c">() == 2);
static_assert(ToCharPack<"xyz">::view() == "xyz" && ToCharPack<"">::Size == 0);
static_assert((5_s).toChrono() == std::chrono::seconds(5) && (250_ms).toChrono() == std::chrono::milliseconds(250) && (7_us).toChrono() == std::chrono::microseconds(7) && (900_ns).toChrono() == std::chrono::nanoseconds(900));
static_assert((1234567890123_ms).toChrono().count() == 1234567890123LL && (0_s).toChrono().count() == 0 && "42"_s.toChrono().count() == 42);
}
// ---- random strings keep length and alphabet, and reach every character
static void randomStr(Gen& g) {
    std::size_t n = g.size(200); g.describe(std::to_string(n)); g.nontrivial(n > 3);
    auto a = StringUtil::random<StringUtil::kPureNumbers>(n); PBT_EQ(a.size(), n, "length"); PBT_CHECK(a.find_first_not_of("0123456789") == a.npos, quote(a));
    auto b = StringUtil::random<"ab">(n); PBT_EQ(b.size(), n, "length"); PBT_CHECK(b.find_first_not_of("ab") == b.npos, quote(b));
    if (n >= 100) PBT_CHECK(b.find('a') != b.npos && b.find('b') != b.npos, "a random string of " << n << " draws uses every character: " << quote(b));
    std::string d = DateTimeFormat::makeHttpDate(); std::tm t{}; char* e = strptime(d.c_str(), "%a, %d %b %Y %H:%M:%S GMT", &t); PBT_CHECK(e && !*e && d.size() == 29, "HTTP date " << quote(d));
    std::time_t tt = timegm(&t); PBT_CHECK(std::abs((long)(std::time(nullptr) - tt)) <= 5, "HTTP date " << quote(d) << " is now"); char again[64]; std::strftime(again, sizeof again, "%a, %d %b %Y %H:%M:%S GMT", gmtime(&tt)); PBT_EQ(d, std::string(again), "weekday and month names");
}
// ---- dates at every moment: the clock the library reads is replaced while it formats one
static thread_local bool fakeOn = false; static thread_local long fakeSec = 0, fakeNs = 0; static thread_local int fakeReads = 0;
extern "C" time_t time(time_t* p) noexcept { struct timespec t; if (fakeOn) { ++fakeReads; t.tv_sec = fakeSec; } else syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (fakeOn && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { ++fakeReads; t->tv_sec = fakeSec; t->tv_nsec = fakeNs; return 0; } return (int)syscall(SYS_clock_gettime, c, t); }
static void dates(Gen& g) {
    static constexpr long kMax = 9223372036L - 1;                          // the range of the system clock (the year 2262)
    long s = g.oneof<int>({0, 1, 2, 3}) == 0 ? (long)(g.draw(0) % (unsigned long)(kMax + 1)) : 0;
    if (!s) { static constexpr long marks[] = {0, 951782400, 951868800, 1709164800, 1709251200, 2147483647, 4107542399, 946684800, 7258118400, 1735689600, 978307200, 4133980800}; s = marks[g.draw(12)] + (long)g.draw(200001) - 100000 + (g.boolean() ? 0 : 86400L * 365 * (long)g.draw(60)); if (s < 0) s = -s; if (s > kMax) s = kMax; }
    long ns = g.chance(30, 100) ? 999999999 : (long)g.draw(1000000000);
    // civil date from the day count
    long days = s / 86400, rem = s % 86400, y = 1970, d = days; y += d / 146097 * 400; d %= 146097; auto leap = [](long q) { return q % 4 == 0 && (q % 100 != 0 || q % 400 == 0); };
    while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; ++y; } int len[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, m = 0; while (d >= len[m]) d -= len[m++];
    static char const* wd[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}; static char const* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    char http[64], plain[64], milli[64]; long h = rem / 3600, mi = rem / 60 % 60, se = rem % 60;
    std::snprintf(http, sizeof http, "%s, %02ld %s %04ld %02ld:%02ld:%02ld GMT", wd[days % 7], d + 1, mo[m], y, h, mi, se); std::snprintf(plain, sizeof plain, "%04ld-%02d-%02ld %02ld:%02ld:%02ld", y, m + 1, d + 1, h, mi, se); std::snprintf(milli, sizeof milli, "%s.%03ld", plain, ns / 1000000);
    g.describe(std::to_string(s) + "." + std::to_string(ns)); g.nontrivial(s > 86400 && rem > 0);
    auto with = [&](auto f, std::string& out) { fakeSec = s; fakeNs = ns; fakeReads = 0; fakeOn = true; out = f(); fakeOn = false; return fakeReads > 0; };
    std::string a, b, c;
    if (with([] { return DateTimeFormat::makeHttpDate(); }, a)) PBT_EQ(a, std::string(http), "HTTP date at " << s);
    {
        if (with([] { return DateTimeFormat::format(); }, b)) PBT_EQ(b, std::string(plain), "date and time at " << s);
        if (with([] { return DateTimeFormat::formatWithMilli(); }, c)) PBT_EQ(c, std::string(milli), "date and time with milliseconds at " << s << "." << ns);
    }
}
// ---- header names compare without case, as field names do
static void headerMap(Gen& g) {
    net::HeaderHashMap m; std::map<std::string, std::string> ref; std::string log; auto low = [](std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; };
    int n = 1 + (int)g.size(20);
    auto name = [&] { return g.chance(50, 100) ? g.strUpTo("aAbBkK-_^~@`[{", 4, 1) : g.strUpTo("XxYy", 24, 8); };
    for (int i = 0; i < n; ++i) { auto k = name(), v = g.strUpTo("vw", 3); switch (g.draw(3)) { case 0: m[k] = v; ref[low(k)] = v; break; case 1: { bool in = m.try_emplace(k, v).second, rin = ref.try_emplace(low(k), v).second; PBT_EQ(in, rin, "insertion of " << quote(k)); break; } case 2: PBT_EQ(m.erase(k), ref.erase(low(k)), "erase of " << quote(k)); break; }
        log += quote(k) + " "; auto q = name(); auto it = m.find(q); auto ri = ref.find(low(q)); PBT_EQ(it != m.end(), ri != ref.end(), "presence of " << quote(q) << " after " << log); if (ri != ref.end()) PBT_EQ(it->second, ri->second, "value of " << quote(q)); PBT_EQ(m.size(), ref.size(), "number of names after " << log); }
    g.describe(log); g.nontrivial(ref.size() > 1);
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "U01",
        .rule = "generated texts rich in delimiters, partial delimiters and letters beside their case-bit neighbours; numbers at the limits of their types; non-trivial: the delimiter occurs / more than a trivial length",
        .assumptions = {"delimiters are not empty", "text given to number-base conversion is digits of that base and in range", "fixed strings hold no NUL"}},
        {{"split", split, 40000, 2000000}, {"case", cases, 30000, 1000000}, {"bases", bases, 40000, 2000000}, {"byteswap", swaps, 10000, 400000}, {"fixedString", fixed, 30000, 1000000}, {"random", randomStr, 3000, 100000}, {"dates", dates, 20000, 1000000}, {"headerMap", headerMap, 20000, 1000000}});
}

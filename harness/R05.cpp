// technique: property-based testing over schedules: generated log calls of several threads, the captured output decomposed into whole lines against the expected sequence of each thread
// note: the values are rendered by the library's own formatter, whose renderings R03 decides
// opt: -O1
#include <common/pbt.hpp>
#include <HXLibs/log/Log.hpp>
#include <atomic>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
using namespace HX; using pbt::Gen; using pbt::quote; using S = std::string;
struct Capture { int save, fd; S* out; explicit Capture(S& o) : out(&o) { std::cout.flush(); std::fflush(stdout); save = ::dup(1); fd = ::memfd_create("out", 0); ::dup2(fd, 1); }
    ~Capture() { std::cout.flush(); std::fflush(stdout); auto n = ::lseek(fd, 0, SEEK_END); out->assign((std::size_t)n, '\0'); std::size_t at = 0; for (ssize_t k; at < (std::size_t)n && (k = ::pread(fd, out->data() + at, (std::size_t)n - at, (off_t)at)) > 0;) at += (std::size_t)k; ::dup2(save, 1); ::close(save); ::close(fd); } };
enum Level { Info, Warning, Error, Debug };
static char const* const kTag[] = {"\033[1;32m[INFO]\033[0m \033[32m", "\033[1;33m[WARNING]\033[0m \033[33m", "\033[1;31m[ERROR]\033[0m \033[31m", "\033[1;35m[DEBUG]\033[0m \033[38;5;244m"};
template <typename... T> static void call(Level l, T const&... t) { switch (l) { case Info: log::hxLog.info(t...); break; case Warning: log::hxLog.warning(t...); break; case Error: log::hxLog.error(t...); break; default: log::hxLog.debug(t...); } }
template <typename... T> static S line(Level l, T const&... t) {
#ifdef NDEBUG
    if (l == Debug) return "";
#endif
    S r = kTag[l]; ((r += log::formatString(t) + " "), ...); return r + "\033[0m\n";
}
struct Pt { int x; S name; std::vector<int> v; };
// one generated call: what it prints and how to make it
struct Made { S want; std::function<void()> make; };
template <typename... T> static Made made(Level l, T... t) { return {line(l, t...), [=] { call(l, t...); }}; }
static S text(Gen& g) { return g.chance(25, 100) ? g.blob(g.size(30)) : g.chance(10, 100) ? g.str("ab%s\n", 200 + g.draw(9000)) : g.chance(20, 100) ? g.oneof<S>({"%s", "%n%n", "%d%%", S("a\0b", 3), S("\0", 1), "", "\n", "\033[0m\n", "100%", "\033[1;32m[INFO]\033[0m \033[32m"}) : g.strUpTo("abc %\xe4\xbd\xa0", 20); }
static Made any(Gen& g, S const& tag) {
    auto l = (Level)g.oneof<int>({0, 0, 1, 2, 2, 3}); int i = (int)g.range(-1000, 1000);
    switch (g.draw(11)) {
    case 0: return made(l, tag); case 1: return made(l, tag, text(g)); case 2: return made(l, tag, i, text(g)); case 3: return made(l, tag, text(g), i, (double)i / 8); case 4: { std::vector<S> v; for (auto n = g.size(5); n; --n) v.push_back(text(g)); return made(l, tag, v); }
    case 5: return made(l, tag, std::optional<S>(text(g)), std::optional<int>()); case 6: return made(l, tag, Pt{i, text(g), {i, i}}); case 7: return made(l, tag, std::map<S, int>{{text(g), i}}, true);
    case 8: return made(l, tag, 'x', "literal", i, text(g), std::pair<int, S>{i, text(g)}); case 9: { auto s = text(g); return Made{line(l, tag, std::string_view(s), s), [=] { call(l, tag, std::string_view(s), s); }}; }
    default: return made(l, tag, text(g), text(g), text(g));
    }
}
static S cut(S const& s, std::size_t at) { return quote(s.substr(std::min(at, s.size()), 120)); }
static void calls(Gen& g) {
    std::size_t n = 1 + g.size(12); std::vector<Made> m; S want, got, d; bool inner = false; for (std::size_t i = 0; i < n; ++i) { m.push_back(any(g, "#" + std::to_string(i))); want += m.back().want; inner |= m.back().want.find('\0') != S::npos || m.back().want.find('%') != S::npos; d += quote(m.back().want.substr(0, 60)) + " "; }
    if (g.chance(20, 100)) { auto l = (Level)g.draw(4); m.push_back({line(l), [=] { call(l); }}); want += m.back().want; }
    g.describe(d); g.nontrivial(n > 1); if (inner) g.label("NUL or %");
    { Capture c(got); for (auto& x : m) x.make(); }
    std::size_t at = 0; while (at < std::min(got.size(), want.size()) && got[at] == want[at]) ++at; PBT_CHECK(got == want, "the output differs from byte " << at << " on: " << cut(got, at) << " instead of " << cut(want, at));
}
static void threads(Gen& g) {
    std::size_t T = 2 + g.draw(4); std::vector<std::vector<Made>> m(T); S d, got; std::vector<unsigned> pace; std::size_t total = 0;
    for (std::size_t t = 0; t < T; ++t) { auto n = 1 + g.size(25); for (std::size_t i = 0; i < n; ++i) { m[t].push_back(any(g, S(1, char('A' + t)) + std::to_string(i))); total += !m[t].back().want.empty(); } pace.push_back((unsigned)g.draw(300)); d += std::to_string(n) + " "; }
    g.describe("calls of each thread: " + d); g.nontrivial(total > T);
    { Capture c(got); std::atomic<std::size_t> ready{0}; std::vector<std::thread> ts; for (std::size_t t = 0; t < T; ++t) ts.emplace_back([&, t] { ++ready; while (ready < T) std::this_thread::yield(); for (auto& x : m[t]) { x.make(); for (unsigned volatile k = 0; k < pace[t]; k = k + 1); } }); for (auto& t : ts) t.join(); }
    std::vector<std::size_t> next(T, 0); std::size_t at = 0;
    while (at < got.size()) { std::size_t t = 0; for (; t < T; ++t) { while (next[t] < m[t].size() && m[t][next[t]].want.empty()) ++next[t]; if (next[t] < m[t].size() && got.compare(at, m[t][next[t]].want.size(), m[t][next[t]].want) == 0) break; }
        PBT_CHECK(t < T, "what follows byte " << at << " of the output is no whole line that any thread could have written next: " << cut(got, at)); at += m[t][next[t]++].want.size(); }
    for (std::size_t t = 0; t < T; ++t) { while (next[t] < m[t].size() && m[t][next[t]].want.empty()) ++next[t]; PBT_CHECK(next[t] == m[t].size(), "thread " << t << " wrote " << m[t].size() << " lines but only " << next[t] << " came out"); }
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "R05", .rule = "calls: more than one call; threads: more lines than threads", .assumptions = {"standard output accepts what is written to it"}, .quickCapS = 40},
        {{"calls", calls, 20000, 600000}, {"threads", threads, 2500, 80000, 20, true}});
}

#pragma once
// Property-based testing engine: tape-driven generators, forked workers, coverage feedback,
// tape shrinking, triple replay, evidence.  See DESIGN.md.
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <filesystem>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

using u64 = std::uint64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 hashStr(std::string_view s, u64 h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

inline std::string quote(std::string_view s, std::size_t maxLen = 400) {
    std::string r = "\"";
    std::size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= maxLen) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

struct Failure { std::string msg; };
struct Discard {};

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define PBT_FAIL(...) do { std::ostringstream _o; _o << __VA_ARGS__; throw ::pbt::Failure{_o.str()}; } while (0)
#define PBT_CHECK(cond, ...) do { if (!(cond)) { std::ostringstream _o; _o << #cond << ": " << __VA_ARGS__; \
    throw ::pbt::Failure{_o.str()}; } } while (0)
#define PBT_EQ(a, b, ...) do { auto&& _a = (a); auto&& _b = (b); if (!(_a == _b)) { std::ostringstream _o; \
    _o << #a << " = " << ::pbt::show(_a) << " but expected " << ::pbt::show(_b) << "; " << __VA_ARGS__; \
    throw ::pbt::Failure{_o.str()}; } } while (0)

template <typename T> std::string show(T const& v) {
    if constexpr (std::is_convertible_v<T const&, std::string_view>) return quote(std::string_view(v));
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (requires(std::ostringstream& o) { o << v; }) { std::ostringstream o; o << v; return o.str(); }
    else if constexpr (requires { v.begin(); v.end(); }) {
        std::string r = "["; std::size_t i = 0;
        for (auto const& e : v) { if (i++) r += ", "; if (i > 40) { r += "..."; break; } r += show(e); }
        return r + "]";
    }
    else if constexpr (requires { v.first; v.second; }) return "(" + show(v.first) + ": " + show(v.second) + ")";
    else return "?";
}

// ------------------------------------------------------------------ shared state
constexpr std::size_t kTapeCap = 1u << 18;
constexpr std::size_t kMsgCap = 6000;
constexpr std::size_t kSetCap = 1u << 19;
constexpr int kMaxWorkers = 16;
constexpr int kMaxLabels = 128;
constexpr int kMaxSamples = 24;

struct Slot {                       // one per worker
    std::atomic<u64> startNs;       // 0 = idle
    std::atomic<u64> seq;
    std::atomic<int> sub;
    std::atomic<u64> caseIdx;
    std::atomic<u64> tapeLen;
    std::atomic<int> failed;        // 1 = CHECK failure recorded in msg
    std::atomic<int> done;
    char msg[kMsgCap];
    char desc[kMsgCap];
    u64 tape[kTapeCap];
};
struct Shared {
    std::atomic<u64> evaluations, nontrivialDistinct, discarded, covNew;
    std::atomic<u64> subEval[64];
    std::atomic<int> subSamples[64];
    std::atomic<int> stop;
    std::atomic<int> labelLock, sampleLock, nLabels, nSamples;
    struct { char name[56]; std::atomic<u64> n; } labels[kMaxLabels];
    char samples[kMaxSamples][1200];
    std::atomic<u64> set[kSetCap];
    Slot slot[kMaxWorkers];
};
inline Shared* g_sh = nullptr;

inline bool setInsert(u64 h) {
    if (!h) h = 1;
    for (std::size_t i = h & (kSetCap - 1), k = 0; k < 64; ++k, i = (i + 1) & (kSetCap - 1)) {
        u64 cur = g_sh->set[i].load();
        if (cur == h) return false;
        if (cur == 0) { if (g_sh->set[i].compare_exchange_strong(cur, h)) return true; if (cur == h) return false; }
    }
    return false;                   // table region full: not counted
}
inline u64 nowNs() {
    return (u64)std::chrono::duration_cast<std::chrono::nanoseconds>(
        std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ generator
struct Gen {
    std::vector<u64> replay;        // choices to replay
    std::size_t pos = 0;
    u64 rng = 0;                    // state for fresh choices
    bool fresh = true;              // past the end of replay: fresh choice (true) or 0 (false)
    Slot* slot = nullptr;
    // observations
    bool isNontrivial = false;
    std::string description;

    u64 draw(u64 bound) {           // [0, bound), bound 0 = all 64 bits
        if (pos >= kTapeCap) throw Discard{};
        u64 v;
        if (pos < replay.size()) v = replay[pos];
        else if (fresh) { rng = mix(rng); v = rng; }
        else v = 0;
        if (bound) v %= bound;
        slot->tape[pos] = v;
        ++pos;
        slot->tapeLen.store(pos, std::memory_order_relaxed);
        return v;
    }
    template <typename T = long long> T range(T lo, T hi) {            // inclusive, shrinks to lo
        u64 span = (u64)hi - (u64)lo + 1;
        return (T)((u64)lo + draw(span));
    }
    bool chance(int num, int den) { return draw((u64)den) >= (u64)(den - num); }
    bool boolean() { return draw(2); }
    template <typename C> auto const& pick(C const& c) { return *(std::begin(c) + (std::ptrdiff_t)draw((u64)std::size(c))); }
    template <typename T> T oneof(std::initializer_list<T> l) { return *(l.begin() + (std::ptrdiff_t)draw(l.size())); }
    // size in [0,max], mostly small, sometimes anywhere
    std::size_t size(std::size_t max) {
        switch (draw(4)) {
        case 0: return (std::size_t)draw(std::min<std::size_t>(max, 3) + 1);
        case 1: return (std::size_t)draw(std::min<std::size_t>(max, 10) + 1);
        case 2: return (std::size_t)draw(std::min<std::size_t>(max, 60) + 1);
        default: return (std::size_t)draw(max + 1);
        }
    }
    // size near one of the interesting boundaries, or generic
    std::size_t sizeNear(std::initializer_list<std::size_t> marks, std::size_t max) {
        u64 k = draw(marks.size() + 2);
        if (k < 2) return size(max);
        std::size_t m = *(marks.begin() + (std::ptrdiff_t)(k - 2));
        long long d = (long long)draw(7) - 3;
        if (chance(1, 4)) d *= 17;
        long long v = (long long)m + d;
        if (v < 0) v = 0;
        return std::min<std::size_t>((std::size_t)v, max);
    }
    std::string str(std::string_view alphabet, std::size_t n) {
        std::string s; s.reserve(n);
        for (std::size_t i = 0; i < n; ++i) s += alphabet[draw(alphabet.size())];
        return s;
    }
    std::string strUpTo(std::string_view alphabet, std::size_t max, std::size_t min = 0) {
        std::size_t n = min + size(max - min);
        return str(alphabet, n);
    }
    // byte blob of n bytes from one or two choices (large payloads)
    std::string blob(std::size_t n) {
        u64 kind = draw(8), s = draw(0);
        std::string r(n, '\0');
        switch (kind) {
        case 0: for (std::size_t i = 0; i < n; ++i) r[i] = char('a' + (i * 7 + i / 26) % 26); break;
        case 1: std::fill(r.begin(), r.end(), char(s)); break;
        case 2: for (auto& c : r) { s = mix(s); c = "\r\n0123abc: "[s % 11]; } break;
        case 3: for (std::size_t i = 0; i < n; ++i) r[i] = char(i); break;
        default: for (auto& c : r) { s = mix(s); c = char(s); }
        }
        return r;
    }
    std::string bytes(std::size_t n) { std::string r(n, '\0'); for (auto& c : r) c = char(draw(256)); return r; }

    void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
    void describe(std::string s) {
        description = std::move(s);
        std::size_t n = std::min(description.size(), kMsgCap - 1);
        std::memcpy(slot->desc, description.data(), n); slot->desc[n] = 0;
    }
    void label(std::string_view l) { labels.insert(std::string(l)); }
    std::set<std::string> labels;
};

[[noreturn]] inline void discard() { throw Discard{}; }

// ------------------------------------------------------------------ coverage feedback
inline std::uint8_t *g_covBegin = nullptr, *g_covEnd = nullptr;
inline std::vector<std::uint8_t>* g_covSeen = nullptr;
inline bool covScan() {
    if (!g_covBegin) return false;
    std::size_t n = (std::size_t)(g_covEnd - g_covBegin);
    if (!g_covSeen) g_covSeen = new std::vector<std::uint8_t>(n, 0);
    bool fresh = false;
    for (std::size_t i = 0; i < n;) {
        if (i + 8 <= n) { u64 w; std::memcpy(&w, g_covBegin + i, 8); if (!w) { i += 8; continue; } }
        std::size_t e = std::min(i + 8, n);
        for (; i < e; ++i) if (auto c = g_covBegin[i]) {
            std::uint8_t b = c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32 : c >= 8 ? 16 : c >= 4 ? 8 : c == 3 ? 4 : c == 2 ? 2 : 1;
            if (!((*g_covSeen)[i] & b)) { (*g_covSeen)[i] |= b; fresh = true; }
            g_covBegin[i] = 0;
        }
    }
    return fresh;
}
inline void covClear() { if (g_covBegin) std::memset(g_covBegin, 0, (std::size_t)(g_covEnd - g_covBegin)); }

// ------------------------------------------------------------------ runner
struct Sub {
    std::string name;
    std::function<void(Gen&)> fn;
    u64 quick = 1000, thorough = 20000;
    double hangS = 20;
    bool racy = false;              // outcome may depend on a real schedule: one reproduction suffices
    int mutatePct = 40;             // share of cases mutated from coverage-increasing tapes
};
struct Options {
    std::string property, rule;
    std::string level = "exploration";
    std::vector<std::string> assumptions;
    double quickCapS = 60, thoroughCapS = 600;
    int workers = 8;
};

inline std::string g_scratch;       // per-process scratch directory
inline std::string scratch() { return g_scratch; }

inline void useScratch(std::string const& d) {
    g_scratch = d;
    ::mkdir(d.c_str(), 0700);
    if (::chdir(d.c_str()) != 0) _exit(97);
}

enum class R { Pass, Fail, Discarded };

inline R runCase(Sub const& s, Gen& g) {
    g.slot->tapeLen = 0; g.slot->failed = 0; g.slot->msg[0] = 0; g.slot->desc[0] = 0;
    auto fail = [&](std::string const& m) {
        std::size_t n = std::min(m.size(), kMsgCap - 1);
        std::memcpy(g.slot->msg, m.data(), n); g.slot->msg[n] = 0;
        g.slot->failed = 1;
        return R::Fail;
    };
    try { s.fn(g); return R::Pass; }
    catch (Discard&) { return R::Discarded; }
    catch (Failure& f) { return fail(f.msg); }
    catch (std::exception& e) { return fail(std::string("unexpected exception: ") + e.what()); }
    catch (...) { return fail("unexpected exception of unknown type"); }
}

struct Engine {
    std::vector<Sub> subs; Options o; std::string tier; u64 seed; std::string root;
    u64 t0 = nowNs();
    std::string base;               // scratch base
    double capS() const { return tier == "quick" ? o.quickCapS : o.thoroughCapS; }
    double elapsed() const { return double(nowNs() - t0) / 1e9; }

    void childSetup(std::string const& name) {
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        ::signal(SIGPIPE, SIG_IGN);
        int n = ::open("/dev/null", O_RDWR);
        ::dup2(n, 0); ::dup2(n, 1);
        std::string e = base + "/" + name + ".err";
        int f = ::open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
        if (f >= 0) { ::dup2(f, 2); ::close(f); }
        ::close(n);
        struct rlimit rl{0, 0}; ::setrlimit(RLIMIT_CORE, &rl);
        useScratch(base + "/" + name + ".d");
    }

    void record(Sub const&, Gen& g, int subIdx, R r) {
        g_sh->evaluations++;
        g_sh->subEval[subIdx]++;
        if (r == R::Discarded) { g_sh->discarded++; return; }
        for (auto const& l : g.labels) bump(subs[(std::size_t)subIdx].name + ":" + l);
        if (g.isNontrivial) {
            u64 h = hashStr(std::string_view((char*)g.slot->tape, g.pos * 8), (u64)subIdx + 77);
            if (setInsert(h)) {
                u64 k = g_sh->nontrivialDistinct++;
                if (!g.description.empty() && k % 7 == 0 && g_sh->subSamples[subIdx] < 3) {
                    g_sh->subSamples[subIdx]++;
                    int i = g_sh->nSamples++;
                    if (i < kMaxSamples) {
                        std::string s = "[" + subs[(std::size_t)subIdx].name + "] " + g.description;
                        std::size_t n = std::min<std::size_t>(s.size(), 1199);
                        std::memcpy(g_sh->samples[i], s.data(), n); g_sh->samples[i][n] = 0;
                    }
                }
            }
        }
    }
    static void bump(std::string const& l) {
        while (g_sh->labelLock.exchange(1)) ::sched_yield();
        int n = g_sh->nLabels, i = 0;
        for (; i < n; ++i) if (l.compare(0, 55, g_sh->labels[i].name) == 0) break;
        if (i == n && n < kMaxLabels) { std::snprintf(g_sh->labels[i].name, 56, "%s", l.c_str()); g_sh->nLabels++; ++n; }
        if (i < n) g_sh->labels[i].n++;
        g_sh->labelLock = 0;
    }

    std::vector<std::vector<u64>> corpus; // per worker (after fork), per sub flushed

    // Worker w owns cases w, w+W, ... of each sub-check.  Resumes after `from` (sub, index).
    void worker(int w, int W, int fromSub, u64 fromIdx, int round) {
        Slot& sl = g_sh->slot[w];
        for (int si = fromSub; si < (int)subs.size(); ++si) {
            Sub const& s = subs[(std::size_t)si];
            corpus.clear(); delete g_covSeen; g_covSeen = nullptr;
            u64 total = tier == "quick" ? s.quick : s.thorough;
            u64 startIdx = (si == fromSub) ? fromIdx : (u64)w;
            // share of the time budget for this sub-check
            double share = capS() * double(si + 1) / double(subs.size());
            for (u64 i = startIdx; i < total; i += (u64)W) {
                if (g_sh->stop) return;
                if (elapsed() > std::max(share, 1.0)) break;
                Gen g; g.slot = &sl;
                u64 cs = mix(mix(seed * 1000003 + (u64)si) ^ mix(i + 0x1234567)) ^ hashStr(s.name);
                g.rng = cs;
                if (!corpus.empty() && (mix(cs ^ 99) % 100) < (u64)s.mutatePct) mutate(g, cs);
                sl.sub = si; sl.caseIdx = i; sl.seq++;
                covClear();
                sl.startNs = nowNs();
                R r = runCase(s, g);
                sl.startNs = 0;
                if (r == R::Fail) { sl.failed = 1; _exit(41); }
                record(s, g, si, r);
                if (r == R::Pass && covScan() && g.pos < 20000 && corpus.size() < 400) {
                    g_sh->covNew++;
                    corpus.emplace_back(sl.tape, sl.tape + g.pos);
                }
            }
        }
        (void)round;
    }
    void mutate(Gen& g, u64 cs) {
        u64 r = mix(cs ^ 0xabcdef);
        auto nx = [&](u64 b) { r = mix(r); return b ? r % b : r; };
        g.replay = corpus[nx(corpus.size())];
        int n = 1 + (int)nx(4);
        for (int k = 0; k < n && !g.replay.empty(); ++k) {
            std::size_t p = nx(g.replay.size());
            switch (nx(6)) {
            case 0: g.replay[p] = nx(0); break;
            case 1: g.replay[p] = nx(8); break;
            case 2: g.replay[p] ^= 1ull << nx(12); break;
            case 3: g.replay.resize(p); break;
            case 4: { std::size_t q = std::min(g.replay.size(), p + 1 + nx(8)); g.replay.erase(g.replay.begin() + (long)p, g.replay.begin() + (long)q); break; }
            default: {
                auto const& o2 = corpus[nx(corpus.size())];
                if (o2.empty()) break;
                std::size_t q = nx(o2.size()), len = 1 + nx(std::min<std::size_t>(16, o2.size() - q));
                g.replay.insert(g.replay.begin() + (long)p, o2.begin() + (long)q, o2.begin() + (long)(q + len));
            } }
        }
    }

    static std::string tail(std::string const& f, std::size_t n) {
        FILE* fp = std::fopen(f.c_str(), "rb"); if (!fp) return "";
        std::string s; char b[4096]; std::size_t k;
        while ((k = std::fread(b, 1, sizeof b, fp)) > 0 && s.size() < 4000000) s.append(b, k);
        std::fclose(fp);
        auto p = s.find("ERROR: AddressSanitizer"); auto q = s.find("runtime error:");
        auto e = std::min(p, q);
        if (e != std::string::npos) s = s.substr(e > 120 ? e - 120 : 0, n);
        else if (s.size() > n) s = s.substr(s.size() - n);
        return s;
    }

    // run one tape in a fresh child.  returns "" = pass, else the failure message
    int oneSeq = 0;
    std::string runOne(int subIdx, std::vector<u64> const& tape, double limitS, std::string* desc = nullptr,
                       std::vector<u64>* outTape = nullptr) {
        Slot& sl = g_sh->slot[kMaxWorkers - 1];
        sl.failed = 0; sl.msg[0] = 0; sl.desc[0] = 0; sl.tapeLen = 0;
        std::string name = "one" + std::to_string(oneSeq++ % 4);
        pid_t p = ::fork();
        if (p == 0) {
            childSetup(name);
            Gen g; g.slot = &sl; g.replay = tape; g.fresh = false;
            R r = runCase(subs[(std::size_t)subIdx], g);
            ::_exit(r == R::Fail ? 41 : 0);
        }
        u64 st = nowNs(); int status = 0; bool killed = false;
        for (;;) {
            pid_t k = ::waitpid(p, &status, WNOHANG);
            if (k == p) break;
            double el = double(nowNs() - st) / 1e9;
            if (el > limitS) { ::kill(p, SIGKILL); ::waitpid(p, &status, 0); killed = true; break; }
            ::usleep(el < 0.05 ? 300 : 5000);
        }
        std::string m;
        if (killed) m = "hang: the case did not finish within " + std::to_string((int)limitS) + " s";
        else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) m = "";
        else if (WIFEXITED(status) && WEXITSTATUS(status) == 41) m = std::string(sl.msg[0] ? sl.msg : "failed");
        else m = "crash (" + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "exit " + std::to_string(WEXITSTATUS(status)))
                 + "): " + tail(base + "/" + name + ".err", 1500);
        if (desc) *desc = sl.desc;
        if (outTape) outTape->assign(sl.tape, sl.tape + std::min<u64>(sl.tapeLen, kTapeCap));
        std::error_code ec; std::filesystem::remove_all(base + "/" + name + ".d", ec);
        return m;
    }

    std::vector<u64> shrink(int si, std::vector<u64> t, double budgetS, double limitS) {
        u64 st = nowNs(); int tries = 0;
        auto ok = [&] { return double(nowNs() - st) / 1e9 < budgetS && tries < 3000; };
        auto fails = [&](std::vector<u64> const& c, std::vector<u64>& used) {
            ++tries;
            std::string m = runOne(si, c, limitS, nullptr, &used);
            return !m.empty() && m.rfind("crash (exit 9", 0) != 0;
        };
        auto attempt = [&](std::vector<u64> c) {
            std::vector<u64> used;
            if (!fails(c, used)) return false;
            if (used.size() <= c.size() && used.size() > 0) c = used;   // only what was consumed
            if (c.size() < t.size() || (c.size() == t.size() && c < t)) { t = c; return true; }
            return false;
        };
        bool progress = true;
        while (progress && ok()) {
            progress = false;
            for (std::size_t k = std::max<std::size_t>(t.size() / 2, 1); k >= 1 && ok(); k /= 2) {
                for (std::size_t p = 0; p < t.size() && ok();) {
                    auto c = t; std::size_t e = std::min(p + k, c.size());
                    c.erase(c.begin() + (long)p, c.begin() + (long)e);
                    if (attempt(c)) progress = true; else p += k;
                }
                if (k == 1) break;
            }
            for (std::size_t k = std::max<std::size_t>(t.size() / 2, 1); k >= 1 && ok(); k /= 2) {
                for (std::size_t p = 0; p < t.size() && ok(); p += k) {
                    auto c = t; bool any = false;
                    for (std::size_t i = p; i < std::min(p + k, c.size()); ++i) if (c[i]) { c[i] = 0; any = true; }
                    if (any && attempt(c)) progress = true;
                }
                if (k == 1) break;
            }
            for (std::size_t p = 0; p < t.size() && ok(); ++p) {
                u64 lo = 0, hi = t[p];
                for (int it = 0; it < 12 && lo + 1 < hi && p < t.size() && ok(); ++it) {
                    auto c = t; u64 m = lo + (hi - lo) / 2; c[p] = m;
                    if (attempt(c)) { progress = true; if (p < t.size()) hi = std::min(hi, t[p]); } else lo = m;
                }
                if (p < t.size() && t[p] && ok()) { auto c = t; c[p]--; if (attempt(c)) progress = true; }
            }
        }
        return t;
    }

    static std::string jstr(std::string_view s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r + "\"";
    }
    void evidence(int violations) {
        std::ostringstream f;
        f << "{\n \"property\": " << jstr(o.property) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": " << jstr(o.level) << ",\n \"coverage\": {\n  \"evaluations\": " << g_sh->evaluations
          << ",\n  \"distinct_nontrivial\": " << g_sh->nontrivialDistinct << ",\n  \"rule\": " << jstr(o.rule)
          << ",\n  \"discarded\": " << g_sh->discarded << ",\n  \"coverage_increasing_tapes\": " << g_sh->covNew
          << ",\n  \"per_subcheck\": {";
        for (std::size_t i = 0; i < subs.size(); ++i) f << (i ? ", " : "") << jstr(subs[i].name) << ": " << g_sh->subEval[i];
        f << "},\n  \"labels\": {";
        for (int i = 0; i < g_sh->nLabels; ++i) f << (i ? ", " : "") << jstr(g_sh->labels[i].name) << ": " << g_sh->labels[i].n;
        f << "},\n  \"samples\": [";
        int n = std::min<int>(g_sh->nSamples, kMaxSamples);
        for (int i = 0; i < n; ++i) f << (i ? ",\n   " : "\n   ") << jstr(g_sh->samples[i]);
        f << "]\n },\n \"assumptions\": [";
        for (std::size_t i = 0; i < o.assumptions.size(); ++i) f << (i ? ", " : "") << jstr(o.assumptions[i]);
        f << "],\n \"wall_s\": " << elapsed() << ",\n \"violations\": " << violations << "\n}\n";
        std::filesystem::create_directories(root + "/evidence");
        std::string p = root + "/evidence/" + o.property + ".json";
        FILE* fp = std::fopen(p.c_str(), "wb");
        if (fp) { auto s = f.str(); std::fwrite(s.data(), 1, s.size(), fp); std::fclose(fp); }
    }

    struct Found { int sub; std::vector<u64> tape; std::string msg; u64 idx; };

    int confirm(Found f) {
        Sub const& s = subs[(std::size_t)f.sub];
        std::fprintf(stderr, "failure candidate [%s] case %llu: %.600s\n", s.name.c_str(), (unsigned long long)f.idx, f.msg.c_str());
        double lim = s.hangS * (f.msg.rfind("hang", 0) == 0 ? 2.0 : 1.5);
        auto reproduces = [&](std::vector<u64> const& t, std::string& m, std::string& d) {
            int need = s.racy ? 1 : 3, tries = s.racy ? 40 : 3, got = 0;
            u64 rs = nowNs();
            for (int i = 0; i < tries && got < need; ++i) {
                std::string mm = runOne(f.sub, t, lim, &d);
                // the machine being short of memory is no failure of the code: wait for it to pass
                for (int k = 0; k < 15 && mm.find("Cannot allocate memory") != std::string::npos; ++k) { ::usleep(2000000); mm = runOne(f.sub, t, lim, &d); }
                if (!mm.empty()) { m = mm; ++got; }
                else if (!s.racy) return false;
                if (double(nowNs() - rs) / 1e9 > 150 && got < need && s.racy) break;
            }
            return got >= need;
        };
        std::string m, d;
        if (!reproduces(f.tape, m, d)) {
            std::fprintf(stderr, "not reproduced on replay; not reported\n");
            return 0;
        }
        bool hang = m.rfind("hang", 0) == 0;
        auto t = s.racy ? f.tape : shrink(f.sub, f.tape, hang ? 60 : 45, hang ? s.hangS : std::min(s.hangS, 10.0));
        std::string m2, d2;
        if (t != f.tape && reproduces(t, m2, d2)) { m = m2; d = d2; } else t = f.tape;
        std::filesystem::create_directories(root + "/replays");
        char nm[64]; u64 h = hashStr(std::string_view((char*)t.data(), t.size() * 8));
        std::snprintf(nm, sizeof nm, "%s-%08x.replay", o.property.c_str(), (unsigned)h);
        std::string path = root + "/replays/" + nm;
        writeReplay(path, s.name, t, m, d);
        std::printf("case: %.3000s\nfailure: %.3000s\n", d.c_str(), m.c_str());
        std::printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), path.c_str());
        std::fflush(stdout);
        return 1;
    }

    void writeReplay(std::string const& path, std::string const& sub, std::vector<u64> const& t,
                     std::string const& m, std::string const& d) {
        FILE* f = std::fopen(path.c_str(), "wb"); if (!f) return;
        std::fprintf(f, "pbt-replay 1\nproperty %s\nsub %s\nseed %llu\ntape %zu", o.property.c_str(), sub.c_str(),
                     (unsigned long long)seed, t.size());
        for (auto v : t) std::fprintf(f, " %llu", (unsigned long long)v);
        std::fprintf(f, "\n--- tier %s\n--- case\n%s\n--- failure\n%s\n--- run again with: bash /verif/run.sh %s replay %s\n",
                     tier.c_str(), d.c_str(), m.c_str(), o.property.c_str(), path.c_str());
        std::fclose(f);
    }

    int replayFile(char const* path) {
        FILE* f = std::fopen(path, "rb"); if (!f) { std::perror(path); return 2; }
        char prop[64], sub[128]; unsigned long long sd; std::size_t n;
        if (std::fscanf(f, "pbt-replay 1 property %63s sub %127s seed %llu tape %zu", prop, sub, &sd, &n) != 4) return 2;
        std::vector<u64> t(n);
        for (auto& v : t) { unsigned long long x; if (std::fscanf(f, "%llu", &x) != 1) return 2; v = x; }
        std::fclose(f);
        for (int si = 0; si < (int)subs.size(); ++si) if (subs[(std::size_t)si].name == sub) {
            int bad = 0, N = subs[(std::size_t)si].racy ? 20 : 3;
            for (int i = 0; i < N; ++i) {
                std::string d, m = runOne(si, t, subs[(std::size_t)si].hangS * 2, &d);
                if (i == 0 || !m.empty()) std::printf("run %d: %s\n", i, m.empty() ? "passes" : m.c_str());
                if (i == 0) std::printf("case: %s\n", d.c_str());
                if (!m.empty()) { ++bad; if (subs[(std::size_t)si].racy) break; }
            }
            if (bad) std::printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), path);
            return bad ? 1 : 0;
        }
        return 2;
    }

    int run(int argc, char** argv) {
        tier = "quick"; seed = 1; root = "/verif";
        if (auto e = ::getenv("VERIF_TIER"); e && *e) tier = e;
        if (auto e = ::getenv("VERIF_SEED"); e && *e) seed = std::strtoull(e, nullptr, 10);
        if (auto e = ::getenv("PBT_ROOT"); e && *e) root = e;
        char const* only = ::getenv("PBT_ONLY");
        if (auto e = ::getenv("PBT_SCALE"); e && *e)
            for (auto& s : subs) { s.quick = (u64)((double)s.quick * std::atof(e)); s.thorough = (u64)((double)s.thorough * std::atof(e)); }
        if (only) std::erase_if(subs, [&](Sub const& s) { return s.name != only; });
        char const* rp = nullptr;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--replay" && i + 1 < argc) rp = argv[++i];
            else if (a == "quick" || a == "thorough") tier = a;
        }
        if (tier != "thorough") tier = "quick";
        g_sh = (Shared*)::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (g_sh == MAP_FAILED) { std::perror("mmap"); return 2; }
        base = "/tmp/pbt-" + o.property + "-" + std::to_string(::getpid());
        std::filesystem::remove_all(base); std::filesystem::create_directories(base);
        struct Rm { std::string d; ~Rm() { std::error_code ec; std::filesystem::remove_all(d, ec); } } rm{base};
        ::signal(SIGPIPE, SIG_IGN);
        if (rp) return replayFile(rp);

        int W = std::min(o.workers, kMaxWorkers - 1);
        std::vector<pid_t> pid((std::size_t)W, -1);
        auto launch = [&](int w, int sub, u64 idx) {
            g_sh->slot[w].startNs = 0; g_sh->slot[w].failed = 0;
            pid_t p = ::fork();
            if (p == 0) {
                ::setpgid(0, 0);
                childSetup("w" + std::to_string(w));
                worker(w, W, sub, idx, 0);
                ::_exit(0);
            }
            ::setpgid(p, p);
            pid[(std::size_t)w] = p;
        };
        for (int w = 0; w < W; ++w) { g_sh->slot[w].sub = 0; g_sh->slot[w].caseIdx = (u64)w; launch(w, 0, (u64)w); }
        int violations = 0, candidates = 0;
        std::map<int, int> unreproduced;
        for (;;) {
            int alive = 0; std::vector<std::pair<int, Found>> found;
            for (int w = 0; w < W; ++w) {
                auto& p = pid[(std::size_t)w];
                if (p < 0) continue;
                Slot& sl = g_sh->slot[w];
                int st = 0; pid_t k = ::waitpid(p, &st, WNOHANG);
                auto mk = [&](std::string m) {
                    Found f{sl.sub, {}, std::move(m), sl.caseIdx};
                    f.tape.assign(sl.tape, sl.tape + std::min<u64>(sl.tapeLen, kTapeCap));
                    found.emplace_back(w, std::move(f));
                };
                if (k == p) {
                    ::kill(-p, SIGKILL);
                    p = -1;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) continue;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 41) mk(sl.msg);
                    else mk("crash: " + tail(base + "/w" + std::to_string(w) + ".err", 1500));
                    continue;
                }
                ++alive;
                u64 s0 = sl.startNs; int si = sl.sub;
                if (s0 && si >= 0 && si < (int)subs.size()
                    && double(nowNs() - s0) / 1e9 > subs[(std::size_t)si].hangS && nowNs() > s0) {
                    ::kill(-p, SIGKILL); ::kill(p, SIGKILL); ::waitpid(p, &st, 0); p = -1; --alive;
                    mk("hang: the case did not finish within the limit");
                }
            }
            if (!found.empty()) {
                // stop the others, decide, resume
                std::vector<bool> was((std::size_t)W, false);
                for (int w = 0; w < W; ++w) if (pid[(std::size_t)w] > 0) {
                    ::kill(-pid[(std::size_t)w], SIGKILL); ::kill(pid[(std::size_t)w], SIGKILL);
                    ::waitpid(pid[(std::size_t)w], nullptr, 0); pid[(std::size_t)w] = -1; was[(std::size_t)w] = true;
                }
                std::sort(found.begin(), found.end(), [](auto const& a, auto const& b) {
                    bool ha = a.second.msg.rfind("hang", 0) == 0, hb = b.second.msg.rfind("hang", 0) == 0;
                    return std::make_pair(ha, a.second.tape.size()) < std::make_pair(hb, b.second.tape.size()); });
                for (auto& [w, f] : found) {
                    ++candidates;
                    u64 cs = nowNs();
                    violations = confirm(f);
                    if (!violations && subs[(std::size_t)f.sub].racy && f.msg.rfind("hang", 0) != 0
                        && ++unreproduced[f.sub] >= 3) {
                        // three independent cases failed a sound oracle: the schedule, not the tape, is rare
                        std::filesystem::create_directories(root + "/replays");
                        std::string path = root + "/replays/" + o.property + "-racy.replay";
                        writeReplay(path, subs[(std::size_t)f.sub].name, f.tape, f.msg, "(schedule dependent)");
                        std::printf("failure: %s\nVIOLATION property=%s replay=%s\n", f.msg.c_str(), o.property.c_str(), path.c_str());
                        violations = 1;
                    }
                    t0 += nowNs() - cs;             // deciding does not eat the exploration budget
                    if (violations) break;
                }
                if (violations) break;
                if (candidates > 24) break;
                for (auto& [w, f] : found) launch(w, f.sub, f.idx + (u64)W);
                for (int w = 0; w < W; ++w) if (was[(std::size_t)w]) launch(w, g_sh->slot[w].sub, g_sh->slot[w].caseIdx);
                continue;
            }
            if (!alive) break;
            ::usleep(2000);
        }
        for (int w = 0; w < W; ++w) if (pid[(std::size_t)w] > 0) {
            ::kill(-pid[(std::size_t)w], SIGKILL); ::waitpid(pid[(std::size_t)w], nullptr, 0);
        }
        evidence(violations);
        std::printf("property %s %s seed %llu: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s%s\n",
                    o.property.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)g_sh->evaluations.load(),
                    (unsigned long long)g_sh->nontrivialDistinct.load(), (unsigned long long)g_sh->discarded.load(),
                    elapsed(), violations ? " VIOLATED" : "");
        for (std::size_t i = 0; i < subs.size(); ++i)
            std::printf("  %s: %llu/%llu\n", subs[i].name.c_str(), (unsigned long long)g_sh->subEval[i].load(),
                        (unsigned long long)(tier == "quick" ? subs[i].quick : subs[i].thorough));
        if (::getenv("PBT_VERBOSE")) {
            for (int i = 0; i < g_sh->nLabels; ++i) std::printf("  label %s: %llu\n", g_sh->labels[i].name, (unsigned long long)g_sh->labels[i].n.load());
            for (int i = 0; i < std::min<int>(g_sh->nSamples, kMaxSamples); ++i) std::printf("  sample %s\n", g_sh->samples[i]);
        }
        std::fflush(stdout);
        return violations ? 1 : 0;
    }
};

inline int main(int argc, char** argv, Options o, std::vector<Sub> subs) {
    Engine e; e.subs = std::move(subs); e.o = std::move(o);
    return e.run(argc, argv);
}

} // namespace pbt

#ifdef PBT_COVERAGE
extern "C" void __sanitizer_cov_8bit_counters_init(std::uint8_t* start, std::uint8_t* stop) {
    pbt::g_covBegin = start; pbt::g_covEnd = stop;
}
extern "C" void __sanitizer_cov_pcs_init(const std::uintptr_t*, const std::uintptr_t*) {}
#endif

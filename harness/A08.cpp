// technique: stateful property-based testing: generated histories of opens, reads, writes, seeks and closes on several handles and files, against a byte-array model and the files on disk
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/utils/FileUtils.hpp>
#include <sys/stat.h>
using namespace std::string_view_literals; using namespace HX; using namespace HX::utils; using pbt::Gen; using pbt::quote; using coroutine::Task;
struct File { std::string name; bool exists = false; std::string data; };
struct Handle { std::unique_ptr<AsyncFile> f; int file = -1; OpenMode mode{}; std::size_t rd = 0, wr = 0; std::shared_ptr<void> keep; };
static std::string disk(std::string const& p) { int f = ::open(p.c_str(), O_RDONLY | O_CLOEXEC); if (f < 0) return "<missing>"; std::string s; char b[65536]; for (ssize_t n; (n = ::read(f, b, sizeof b)) > 0;) s.append(b, (std::size_t)n); ::close(f); return s; }
static std::size_t fds() { std::size_t n = 0; for (auto& e : std::filesystem::directory_iterator("/proc/self/fd")) { (void)e; ++n; } return n; }
static std::string data(Gen& g) { switch (g.draw(4)) { case 0: return g.blob(g.size(40)); case 1: return g.strUpTo("ab\n\0c"sv, 200); default: { if (!g.chance(25, 100)) return g.blob(g.size(300)); std::size_t n = g.sizeNear({131071, 131072, 262144, 16384}, 300000); std::string s(n, '\0'); auto x = g.draw(0) | 1; for (auto& c : s) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char)(x >> 56); } return s; } } }
static bool readable(OpenMode m) { return m == OpenMode::Read || m == OpenMode::ReadWrite; } static bool writable(OpenMode m) { return m != OpenMode::Read && m != OpenMode::Directory; }
static char const* mname(OpenMode m) { return m == OpenMode::Read ? "Read" : m == OpenMode::Write ? "Write" : m == OpenMode::ReadWrite ? "ReadWrite" : m == OpenMode::Append ? "Append" : "Directory"; }
template <class F> static bool throws(F&& f) { try { f(); return false; } catch (pbt::Failure&) { throw; } catch (std::exception const&) { return true; } }
static void histories(Gen& g) {
    auto dir = pbt::scratch() + "/d"; std::filesystem::remove_all(dir); std::filesystem::create_directories(dir + "/sub"); int dfd = ::open(dir.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC); auto before = fds();
    std::string desc; bool nontrivial = false; {
    coroutine::EventLoop loop; std::vector<File> files{{"a", false, ""}, {"sub/b.txt", false, ""}, {"文件", false, ""}}; std::vector<Handle> hs(1 + g.draw(3));
    for (auto& f : files) if (g.boolean()) { f.exists = true; f.data = data(g); int d = ::open((dir + "/" + f.name).c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644); for (std::size_t o = 0; o < f.data.size();) { auto n = ::write(d, f.data.data() + o, f.data.size() - o); if (n <= 0) _exit(98); o += (std::size_t)n; } ::close(d); desc += f.name + "=" + std::to_string(f.data.size()) + " bytes; "; }
    auto say = [&](std::string s) { desc += s + "; "; g.describe(desc); };
    auto open = [&](Handle& h, std::size_t hi) {
        int fi = (int)g.draw(files.size()); auto m = g.oneof<OpenMode>({OpenMode::Read, OpenMode::Write, OpenMode::ReadWrite, OpenMode::Append, OpenMode::ReadWrite}); bool rel = g.chance(30, 100), sync = g.boolean(), term = g.boolean(); auto& f = files[(std::size_t)fi];
        bool fresh = !h.f || g.boolean(); if (fresh) h.f = std::make_unique<AsyncFile>(loop);
        auto path = rel ? f.name : dir + "/" + f.name; auto n = path.size(); if (!term) path += g.oneof<std::string>({"x", ".bak", "/y", "0"}); auto p = std::shared_ptr<char[]>(new char[path.size() + term]); std::memcpy(p.get(), path.data(), path.size()); if (term) p[path.size()] = 0; std::string_view sv{p.get(), n};
        say("h" + std::to_string(hi) + (fresh ? "=new " : "=again ") + f.name + " " + mname(m) + (sync ? " sync" : "") + (rel ? " relative" : "") + (term ? "" : " unterminated"));
        bool t = throws([&] { if (sync) h.f->syncOpen(sv, m, rel ? dfd : AT_FDCWD); else loop.sync(h.f->open(sv, m, rel ? dfd : AT_FDCWD)); });
        bool fails = !f.exists && m == OpenMode::Read; PBT_CHECK(t == fails, (t ? "opening failed" : "opening a missing file succeeded") << ": " << f.name << " " << mname(m)); if (t) return;
        if (m == OpenMode::Write) f.data.clear(); f.exists = true; h.file = fi; h.mode = m; h.rd = h.wr = 0;
        };
    // model of the operations
    auto mread = [&](Handle& h, std::size_t n) { auto& d = files[(std::size_t)h.file].data; std::string r = h.rd < d.size() ? d.substr(h.rd, n) : ""; h.rd += r.size(); return r; };
    auto mwrite = [&](Handle& h, std::string const& s) { auto& d = files[(std::size_t)h.file].data; if (s.empty()) return; if (h.mode == OpenMode::Append) h.wr = d.size(); if (d.size() < h.wr + s.size()) d.resize(h.wr + s.size(), '\0'); d.replace(h.wr, s.size(), s); h.wr += s.size(); };
    struct Buf { std::unique_ptr<char[]> b; std::size_t n; explicit Buf(std::size_t k) : b(new char[k + 32]), n(k) { std::memset(b.get(), 0x5a, k + 32); } std::span<char> span() { return {b.get() + 16, n}; } void check(std::size_t used) { for (std::size_t i = 0; i < 16; ++i) PBT_CHECK(b[i] == 0x5a && b[16 + n + i] == 0x5a, "bytes outside the buffer were overwritten"); for (std::size_t i = used; i < n; ++i) PBT_CHECK(b[16 + i] == 0x5a, "bytes of the buffer beyond the returned length were changed (at " << i << ")"); } };
    std::size_t ops = 2 + g.size(20), reads = 0, writes = 0;
    for (std::size_t o = 0; o < ops; ++o) {
        std::size_t hi = g.draw(hs.size()); auto& h = hs[hi]; auto who = "h" + std::to_string(hi); bool sync = g.boolean();
        if (h.file < 0) { open(h, hi); continue; }
        switch (g.draw(9)) {
        case 0: say(who + " close"); if (sync) h.f->syncClose(); else loop.sync(h.f->close()); h.file = -1; break;
        case 1: { auto& d = files[(std::size_t)h.file].data; std::size_t to = g.chance(10, 100) ? d.size() + g.draw(1ull << 33) : g.draw(d.size() + 3); say(who + " setOffset " + std::to_string(to)); h.f->setOffset(to); h.rd = to; break; }
        case 2: case 3: { std::size_t n = g.chance(15, 100) ? g.sizeNear({131072, 65536}, 200000) : g.size(300); bool sized = g.boolean(); Buf b(n); std::size_t k = sized ? g.draw(n + 1) : n; say(who + " read " + std::to_string(k) + (sized ? " into " + std::to_string(n) : "")); int r = -9;
            bool t = throws([&] { r = sized ? (sync ? h.f->syncRead(b.span(), (unsigned)k) : loop.sync(h.f->read(b.span(), (unsigned)k))) : (sync ? h.f->syncRead(b.span()) : loop.sync(h.f->read(b.span()))); });
            PBT_CHECK(t == !readable(h.mode), "read " << (t ? "failed" : "succeeded") << " in mode " << mname(h.mode)); if (t) break; auto want = mread(h, k); PBT_EQ((std::size_t)r, want.size(), "length returned by read"); PBT_CHECK(std::string_view(b.span().data(), want.size()) == want, "read returned " << quote(std::string_view(b.span().data(), want.size()), 60) << " instead of " << quote(want, 60)); b.check(want.size()); ++reads; break; }
        case 4: { say(who + " readAll"); std::string r; bool t = throws([&] { r = sync ? h.f->syncReadAll() : loop.sync(h.f->readAll()); }); PBT_CHECK(t == !readable(h.mode), "readAll " << (t ? "failed" : "succeeded") << " in mode " << mname(h.mode)); if (t) break; auto want = mread(h, std::string::npos); PBT_CHECK(r == want, "readAll returned " << r.size() << " bytes instead of the " << want.size() << " behind the cursor (or other bytes)"); ++reads; break; }
        case 5: case 6: case 7: { auto s = data(g); say(who + " write " + std::to_string(s.size())); bool t = throws([&] { if (sync) h.f->syncWrite(s); else loop.sync(h.f->write(s)); }); if (s.empty()) { PBT_CHECK(!t, "writing nothing failed"); break; } PBT_CHECK(t == !writable(h.mode), "write " << (t ? "failed" : "succeeded") << " in mode " << mname(h.mode)); if (t) break; mwrite(h, s); ++writes; break; }
        default: {      // a read and a write on different files at the same time
            std::size_t k = g.draw(hs.size()); auto& h2 = hs[k]; if (k == hi || h2.file < 0 || h2.file == h.file || !readable(h.mode) || !writable(h2.mode)) break; auto s = data(g); std::size_t n = g.size(500); Buf b(n); say(who + " read " + std::to_string(n) + " while h" + std::to_string(k) + " writes " + std::to_string(s.size())); int r = -9;
            auto both = [&]() -> Task<> { auto [a, c] = co_await coroutine::whenAll(h.f->read(b.span()), h2.f->write(s)); if (!a.isVal()) a.rethrow(); r = a.get(); if (!c.isVal()) c.rethrow(); }; loop.sync(both());
            auto want = mread(h, n); PBT_EQ((std::size_t)r, want.size(), "length returned by read"); PBT_CHECK(std::string_view(b.span().data(), want.size()) == want, "concurrent read returned other bytes"); b.check(want.size()); mwrite(h2, s); ++reads; ++writes; break; }
        }
        if (g.chance(20, 100)) for (auto& f : files) { auto d = disk(dir + "/" + f.name); PBT_CHECK(d == (f.exists ? f.data : "<missing>"), f.name << " on disk has " << d.size() << " bytes, the model has " << f.data.size() << (d.size() == f.data.size() ? " (other bytes)" : "")); }
    }
    nontrivial = reads > 0 && writes > 0; g.nontrivial(nontrivial);
    for (auto& h : hs) if (h.file >= 0) loop.sync(h.f->close());
    for (auto& f : files) { auto p = dir + "/" + f.name; auto d = disk(p); PBT_CHECK(d == (f.exists ? f.data : "<missing>"), f.name << " on disk has " << d.size() << " bytes, the model has " << f.data.size() << (d.size() == f.data.size() ? " (other bytes)" : "")); if (f.exists) { PBT_EQ((std::size_t)FileUtils::getFileSize(p), f.data.size(), "getFileSize"); PBT_CHECK(FileUtils::getFileContent(p) == f.data, "getFileContent returned other bytes"); } else PBT_CHECK(throws([&] { FileUtils::getFileContent(p); }), "getFileContent of a missing file"); }
    if (g.boolean()) { auto s = data(g); say("putFileContent " + std::to_string(s.size())); FileUtils::putFileContent(dir + "/a", s); PBT_CHECK(disk(dir + "/a") == s, "putFileContent wrote other bytes"); }
    }
    ::close(dfd); PBT_EQ(fds(), before - 1, "open file descriptors afterwards"); std::filesystem::remove_all(dir);
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "A08", .rule = "at least one successful read and one successful write",
        .assumptions = {"local files on a file system that supports io_uring", "reads follow the cursor that setOffset moves, writes continue where the previous write through the handle ended (or at the end in append mode)"}, .quickCapS = 60},
        {{"histories", histories, 20000, 600000, 20}});
}

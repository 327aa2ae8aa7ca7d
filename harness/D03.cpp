// technique: stateful property-based testing with injected storage faults: generated histories of statements over a file database whose VFS fails chosen calls (read, write, full disk, truncate, sync, open, delete, lock), while other connections hold locks or a page limit applies, against an in-memory model of the rows and an independent connection on the real VFS
// flags: -lsqlite3
#include <common/pbt.hpp>
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <filesystem>
using namespace HX; using namespace HX::db; using namespace HX::meta::fixed_string_literals; using pbt::Gen; using pbt::quote;
using DB = db::DataBase<DbType::Sqlite3>; using S = std::string;
struct Row { AutoIncrementPrimaryKey<int64_t> id; Constraint<int32_t, attr::Unique> u; S s; std::optional<int64_t> n; };
struct Note { Constraint<int32_t, attr::Index<>> a; S s; inline static constexpr std::string_view TableName = "notes"; };

// ---- a VFS over the real one, whose k-th call of a chosen kind fails
enum Op { Read = 1, Write = 2, Trunc = 4, Sync = 8, Open = 16, Delete = 32, Lock = 64, Size = 128, Access = 256 };
static struct Fault { bool armed = false, sticky = false, fired = false; unsigned mask = 0; int countdown = 0, rc = 0; int calls = 0; } F;
static int hit(Op op) { if (!F.armed || !(F.mask & op)) return 0; ++F.calls; if (F.fired && F.sticky) return F.rc; if (!F.fired && F.countdown-- == 0) { F.fired = true; return F.rc; } return 0; }
struct Shim { sqlite3_file base; sqlite3_file* real; };
static sqlite3_vfs* R; static sqlite3_vfs V; static sqlite3_io_methods M;
static sqlite3_file* rf(sqlite3_file* f) { return reinterpret_cast<Shim*>(f)->real; }
static int code(Op op, int rc) { if (rc == SQLITE_BUSY || rc == SQLITE_FULL) return rc; switch (op) { case Read: return SQLITE_IOERR_READ; case Write: return SQLITE_IOERR_WRITE; case Trunc: return SQLITE_IOERR_TRUNCATE; case Sync: return SQLITE_IOERR_FSYNC; case Open: return SQLITE_CANTOPEN; case Delete: return SQLITE_IOERR_DELETE; case Lock: return SQLITE_IOERR_LOCK; case Size: return SQLITE_IOERR_FSTAT; default: return SQLITE_IOERR_ACCESS; } }
static void installVfs() {
    R = sqlite3_vfs_find("unix"); V = *R; V.zName = "faulty"; V.szOsFile = (int)(sizeof(Shim)) + R->szOsFile; V.pNext = nullptr;
    M.iVersion = 2;
    M.xClose = [](sqlite3_file* f) { return rf(f)->pMethods ? rf(f)->pMethods->xClose(rf(f)) : 0; };
    M.xRead = [](sqlite3_file* f, void* b, int n, sqlite3_int64 o) { if (int e = hit(Read)) return code(Read, e); return rf(f)->pMethods->xRead(rf(f), b, n, o); };
    M.xWrite = [](sqlite3_file* f, void const* b, int n, sqlite3_int64 o) { if (int e = hit(Write)) return code(Write, e); return rf(f)->pMethods->xWrite(rf(f), b, n, o); };
    M.xTruncate = [](sqlite3_file* f, sqlite3_int64 n) { if (int e = hit(Trunc)) return code(Trunc, e); return rf(f)->pMethods->xTruncate(rf(f), n); };
    M.xSync = [](sqlite3_file*, int) { if (int e = hit(Sync)) return code(Sync, e); return 0; };       // power failures are not part of this: nothing needs to reach the disk
    M.xFileSize = [](sqlite3_file* f, sqlite3_int64* n) { if (int e = hit(Size)) return code(Size, e); return rf(f)->pMethods->xFileSize(rf(f), n); };
    M.xLock = [](sqlite3_file* f, int l) { if (int e = hit(Lock)) return code(Lock, e); return rf(f)->pMethods->xLock(rf(f), l); };
    M.xUnlock = [](sqlite3_file* f, int l) { return rf(f)->pMethods->xUnlock(rf(f), l); };
    M.xCheckReservedLock = [](sqlite3_file* f, int* r) { return rf(f)->pMethods->xCheckReservedLock(rf(f), r); };
    M.xFileControl = [](sqlite3_file* f, int op, void* a) { return rf(f)->pMethods->xFileControl(rf(f), op, a); };
    M.xSectorSize = [](sqlite3_file* f) { return rf(f)->pMethods->xSectorSize(rf(f)); };
    M.xDeviceCharacteristics = [](sqlite3_file* f) { return rf(f)->pMethods->xDeviceCharacteristics(rf(f)); };
    M.xShmMap = [](sqlite3_file* f, int a, int b, int c, void volatile** d) { return rf(f)->pMethods->xShmMap(rf(f), a, b, c, d); };
    M.xShmLock = [](sqlite3_file* f, int a, int b, int c) { if (c & SQLITE_SHM_LOCK) if (int e = hit(Lock)) return e == SQLITE_BUSY ? e : SQLITE_IOERR_SHMLOCK; return rf(f)->pMethods->xShmLock(rf(f), a, b, c); };
    M.xShmBarrier = [](sqlite3_file* f) { rf(f)->pMethods->xShmBarrier(rf(f)); };
    M.xShmUnmap = [](sqlite3_file* f, int a) { return rf(f)->pMethods->xShmUnmap(rf(f), a); };
    V.xOpen = [](sqlite3_vfs*, char const* n, sqlite3_file* f, int flags, int* out) { auto* s = reinterpret_cast<Shim*>(f); s->base.pMethods = nullptr; if (int e = hit(Open)) return code(Open, e); s->real = reinterpret_cast<sqlite3_file*>(s + 1); int rc = R->xOpen(R, n, s->real, flags, out); if (s->real->pMethods) s->base.pMethods = &M; return rc; };
    V.xDelete = [](sqlite3_vfs*, char const* n, int) { if (int e = hit(Delete)) return code(Delete, e); return R->xDelete(R, n, 0); };
    V.xAccess = [](sqlite3_vfs*, char const* n, int fl, int* r) { if (int e = hit(Access)) return code(Access, e); return R->xAccess(R, n, fl, r); };
    V.xFullPathname = [](sqlite3_vfs*, char const* n, int k, char* o) { return R->xFullPathname(R, n, k, o); };
    V.xSleep = [](sqlite3_vfs*, int us) { return us; };                                              // waiting for a lock that never comes takes no time
    sqlite3_vfs_register(&V, 1);
}
// ---- an independent connection
struct Raw { sqlite3* h = nullptr; explicit Raw(S const& path) { if (sqlite3_open_v2(path.c_str(), &h, SQLITE_OPEN_READWRITE, "unix") != SQLITE_OK) PBT_FAIL("another connection cannot open the file: " << sqlite3_errmsg(h)); } ~Raw() { sqlite3_close(h); } Raw(Raw const&) = delete;
    int exec(char const* q) { return sqlite3_exec(h, q, nullptr, nullptr, nullptr); }
    std::vector<S> rows(S const& q) { std::vector<S> r; sqlite3_stmt* st = nullptr; if (sqlite3_prepare_v2(h, q.c_str(), -1, &st, nullptr) != SQLITE_OK) { sqlite3_finalize(st); return {"<" + S(sqlite3_errmsg(h)) + ">"}; } int rc; while ((rc = sqlite3_step(st)) == SQLITE_ROW) { S l; for (int i = 0; i < sqlite3_column_count(st); ++i) { if (i) l += '|'; if (sqlite3_column_type(st, i) == SQLITE_NULL) l += "NULL"; else { auto* t = (char const*)sqlite3_column_text(st, i); l.append(t ? t : "", (std::size_t)sqlite3_column_bytes(st, i)); } } r.push_back(l); } if (rc != SQLITE_DONE) r.push_back("<" + S(sqlite3_errmsg(h)) + ">"); sqlite3_finalize(st); return r; } };
struct Rec { int64_t id; int32_t u; S s; std::optional<int64_t> n; bool operator==(Rec const&) const = default; };
static S line(Rec const& r) { return std::to_string(r.id) + "|" + std::to_string(r.u) + "|" + r.s + "|" + (r.n ? std::to_string(*r.n) : "NULL"); }
static S text(Gen& g) { std::size_t n = g.chance(70, 100) ? g.size(30) : g.oneof<std::size_t>({900, 4000, 5000, 20000}); return S(n, (char)('a' + g.draw(26))); }
static void copyFault(Gen& g) {
    F = {}; F.sticky = g.boolean(); F.countdown = g.chance(60, 100) ? (int)g.draw(8) : (int)g.draw(60); F.rc = SQLITE_IOERR;
    switch (g.draw(9)) { case 0: F.mask = Read; break; case 1: F.mask = Write; break; case 2: F.mask = Write; F.rc = SQLITE_FULL; break; case 3: F.mask = Sync; break; case 4: F.mask = Open; break; case 5: F.mask = Delete; break; case 6: F.mask = Lock; F.rc = g.boolean() ? SQLITE_BUSY : SQLITE_IOERR; break; case 7: F.mask = Size | Access | Trunc; break; default: F.mask = Read | Write | Sync | Open | Delete | Lock | Size | Access | Trunc; }
}
enum class How { Clean, Io, ShareLock, ReserveLock, ExclusiveLock, Pages, ReadOnly };
struct Cx { Gen& g; S path; std::unique_ptr<DB> db; std::vector<Rec> rows; int64_t seq = 0; std::vector<S> notes; bool noteTable = false, noteFull = false; int failed = 0, firedAndOk = 0; S said; bool wal = false; void say(S s) { said += s + "; "; } };
template <class Fn> static bool throws(Fn&& f, S* why = nullptr) { try { f(); return false; } catch (std::exception const& e) { if (why) *why = e.what(); return true; } }
static void setup(Cx& c) { c.db->exec("PRAGMA synchronous=NORMAL"); c.db->exec("PRAGMA cache_size=10"); c.db->exec(c.wal ? "PRAGMA journal_mode=WAL" : "PRAGMA journal_mode=DELETE"); c.db->exec("PRAGMA busy_timeout=0"); }
static void compare(Cx& c, std::vector<S> got, S const& who) { std::vector<S> want; for (auto& r : c.rows) want.push_back(line(r)); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got == want) return; S d; for (auto& x : got) if (!std::binary_search(want.begin(), want.end(), x)) d += " has " + quote(x, 60); for (auto& x : want) if (!std::binary_search(got.begin(), got.end(), x)) d += " lacks " + quote(x, 60); PBT_FAIL(who << " sees " << got.size() << " rows, the model has " << want.size() << ":" << d << " after " << c.said); }
static std::vector<S> viaLibrary(Cx& c) { auto r = c.db->sqlTemplate<&viaLibrary>().select<Col(&Row::id), Col(&Row::u), Col(&Row::s), Col(&Row::n)>().from<Row>().exec(); std::vector<S> got; for (auto& x : r) got.push_back(line({x.get<0>(), x.get<1>(), x.get<2>(), x.get<3>()})); return got; }
// One statement. `run` executes it and throws when it reports a failure; `model` makes its effect on the model and returns false when it must be refused.
template <class Run, class Model> static void statement(Cx& c, How how, S const& name, bool writes, Run&& run, Model&& model) {
    std::unique_ptr<Raw> other; auto before = c.rows; auto seq = c.seq; auto notes = c.notes; auto table = c.noteTable, full = c.noteFull; bool legal = model();
    switch (how) {
    case How::Io: copyFault(c.g); if (c.wal) F.mask &= ~(unsigned)Sync; if (!F.mask) F.mask = Write; c.say(name + " with calls " + std::to_string(F.mask) + " failing " + (F.sticky ? "from " : "at ") + std::to_string(F.countdown)); F.armed = true; break;
    case How::ShareLock: c.say(name + " with a reader"); other = std::make_unique<Raw>(c.path); other->exec("BEGIN"); other->rows("SELECT * FROM Row"); break;
    case How::ReserveLock: c.say(name + " with a writer"); other = std::make_unique<Raw>(c.path); other->exec("BEGIN IMMEDIATE"); break;
    case How::ExclusiveLock: c.say(name + " with an exclusive lock"); other = std::make_unique<Raw>(c.path); other->exec("BEGIN EXCLUSIVE"); break;
    case How::Pages: c.say(name + " with a page limit"); c.db->exec("PRAGMA max_page_count=1"); break;
    case How::ReadOnly: c.say(name + " read-only"); c.db->exec("PRAGMA query_only=1"); break;
    default: c.say(name);
    }
    S why; bool failed = throws(run, &why); F.armed = false; bool fired = how == How::Io && F.fired;
    if (other) { other->exec("ROLLBACK"); other.reset(); }
    if (how == How::Pages) c.db->exec("PRAGMA max_page_count=1073741823"); if (how == How::ReadOnly) c.db->exec("PRAGMA query_only=0");
    if (!legal) PBT_CHECK(failed, "a statement that breaks a constraint succeeded after " << c.said);
    bool must = how == How::Clean || (how == How::Io && !fired) || (how == How::ShareLock && (c.wal || !writes)) || (how == How::ReserveLock && !writes) || (how == How::ExclusiveLock && c.wal && !writes) || (how == How::Pages && !writes) || (how == How::ReadOnly && !writes);
    if (legal && must) PBT_CHECK(!failed, "failed (" << why << ") although nothing was wrong after " << c.said);
    if (legal && !must && how != How::Io && how != How::Pages && writes) PBT_CHECK(failed, "a change succeeded although it cannot have been made after " << c.said);
    if (failed) { c.rows = before; c.seq = seq; c.notes = notes; c.noteTable = table; c.noteFull = full; if (!table) { Raw r(c.path); c.noteTable = !r.rows("SELECT 1 FROM sqlite_master WHERE name='notes'").empty(); } ++c.failed; }   // a table and its index are two statements else if (fired) ++c.firedAndOk;
}
static How pickHow(Gen& g) { switch (g.draw(10)) { case 0: case 1: case 2: return How::Clean; case 3: return How::ShareLock; case 4: return g.boolean() ? How::ReserveLock : How::ExclusiveLock; case 5: return g.boolean() ? How::Pages : How::ReadOnly; default: return How::Io; } }
static void step(Cx& c) {
    auto& g = c.g; auto how = pickHow(g);
    auto newRow = [&] { Row r{}; r.u.val = (int32_t)g.range(0, 40); r.s = text(g); if (g.boolean()) r.n = g.range(-5, 5); return r; };
    auto unique = [&](int32_t u) { for (auto& x : c.rows) if (x.u == u) return false; return true; };
    bool quiet = g.boolean();
    switch (g.draw(12)) {
    case 9: { if (c.noteFull) break; statement(c, how, "create the second table", true, [&] { auto t = c.db->createDatabase<Note>(); if (!t.isVal()) t.rethrow(); }, [&] { c.noteTable = c.noteFull = true; return true; }); break; }
    case 10: { Note r{}; r.a.val = (int32_t)g.range(0, 9); r.s = text(g); statement(c, how, "insert into the second table", true, [&] { c.db->sqlTemplate<&step, 9>().insert<Note>(r).exec(); }, [&] { if (!c.noteTable) return false; c.notes.push_back(std::to_string(r.a.get()) + "|" + r.s); return true; }); break; }
    case 0: { auto r = newRow(); statement(c, how, "insert", true, [&] { c.db->sqlTemplate<&step, 0>().insert<Row, false>(r).exec(); }, [&] { if (!unique(r.u.get())) return false; c.rows.push_back({++c.seq, r.u.get(), r.s, r.n}); return true; }); break; }
    case 1: { auto r = newRow(); statement(c, how, "insert noThrow", true, [&] { auto t = c.db->sqlTemplate<&step, 1>().insert<Row, false>(r).execNoThrow(); if (!t.isVal()) t.rethrow(); }, [&] { if (!unique(r.u.get())) return false; c.rows.push_back({++c.seq, r.u.get(), r.s, r.n}); return true; }); break; }
    case 2: { auto r = newRow(); S back, want = "?"; bool ok = false; statement(c, how, "insert returning", true, [&] { auto x = c.db->sqlTemplate<&step, 2>().insert<Row, false>(r).returning<&Row::id, &Row::u, &Row::s, &Row::n>().exec(); back = line({x.get<0>(), x.get<1>(), x.get<2>(), x.get<3>()}); ok = true; }, [&] { if (!unique(r.u.get())) return false; c.rows.push_back({++c.seq, r.u.get(), r.s, r.n}); want = line(c.rows.back()); return true; }); if (ok) PBT_EQ(back, want, "RETURNING"); break; }
    case 3: { int32_t k = (int32_t)g.range(-1, 41); auto s = text(g); uint64_t n = 0, want = 0; bool ok = false; statement(c, how, "update many", true, [&] { if (quiet) { auto t = c.db->sqlTemplate<&step, 3>().update<&Row::s>(s).where<(Col(&Row::u) > param<int32_t>)>(k).execNoThrowGetChanges(); if (!t.isVal()) t.rethrow(); n = t.get(); } else n = c.db->sqlTemplate<&step, 3>().update<&Row::s>(s).where<(Col(&Row::u) > param<int32_t>)>(k).execGetChanges(); ok = true; }, [&] { for (auto& r : c.rows) if (r.u > k) { r.s = s; ++want; } return true; }); if (ok) PBT_EQ(n, want, "rows changed"); break; }
    case 4: { int32_t k = (int32_t)g.range(-1, 41); auto v = std::optional<int64_t>(g.range(-9, 9)); std::vector<S> got, want; bool ok = false; uint64_t n = 0; statement(c, how, "update many returning", true, [&] { got.clear(); auto r = c.db->sqlTemplate<&step, 4>().update<&Row::n>(v).where<(Col(&Row::u) > param<int32_t>)>(k).returning<&Row::id, &Row::u, &Row::s, &Row::n>().execGetChanges(); n = r.changes; for (auto& x : r.columnRes) got.push_back(line({x.get<0>(), x.get<1>(), x.get<2>(), x.get<3>()})); ok = true; }, [&] { for (auto& r : c.rows) if (r.u > k) { r.n = v; want.push_back(line(r)); } return true; }); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (ok) { PBT_CHECK(got == want, "RETURNING gave " << got.size() << " rows instead of " << want.size() << " or other ones after " << c.said); PBT_EQ(n, (uint64_t)want.size(), "rows changed"); } break; }
    case 5: { int32_t k = (int32_t)g.range(-1, 41); uint64_t n = 0, want = 0; bool ok = false; statement(c, how, "delete", true, [&] { if (quiet) { auto t = c.db->sqlTemplate<&step, 8>().deleteForm<Row>().where<(Col(&Row::u) < param<int32_t>)>(k).returning<&Row::id>().execNoThrowGetChanges(); if (!t.isVal()) t.rethrow(); n = t.get().changes; PBT_EQ(t.get().columnRes.size(), (std::size_t)n, "rows returned"); } else n = c.db->sqlTemplate<&step, 5>().deleteForm<Row>().where<(Col(&Row::u) < param<int32_t>)>(k).execGetChanges(); ok = true; }, [&] { want = std::erase_if(c.rows, [&](Rec& r) { return r.u < k; }); return true; }); if (ok) PBT_EQ(n, want, "rows deleted"); break; }
    case 6: { int32_t a = (int32_t)g.range(0, 40), b = (int32_t)g.range(0, 40); statement(c, how, "swap the unique values", true, [&] { c.db->sqlTemplate<&step, 6>().update<&Row::u>(b).where<(Col(&Row::u) == param<int32_t>)>(a).exec(); }, [&] { if (a != b && !unique(a) && !unique(b)) return false; for (auto& r : c.rows) if (r.u == a) r.u = b; return true; }); break; }
    default: { std::vector<S> got, want; bool ok = false; int32_t k = (int32_t)g.range(-1, 41); bool all = g.boolean(); for (auto& r : c.rows) if (all || r.u > k) want.push_back(line(r)); statement(c, how, all ? "select" : "select where", false, [&] { if (all) { got = viaLibrary(c); } else { auto t = c.db->sqlTemplate<&step, 7>().select<Col(&Row::id), Col(&Row::u), Col(&Row::s), Col(&Row::n)>().from<Row>().where<(Col(&Row::u) > param<int32_t>)>(k).execNoThrow(); if (!t.isVal()) t.rethrow(); for (auto& x : t.get()) got.push_back(line({x.get<0>(), x.get<1>(), x.get<2>(), x.get<3>()})); } ok = true; }, [] { return true; }); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (ok) PBT_CHECK(got == want, "a query reported success with " << got.size() << " of " << want.size() << " rows, or other ones, after " << c.said); break; }
    }
}
static void reopen(Cx& c) {
    if (c.g.boolean()) { c.say("close and open"); c.db->close(); c.db->open(c.path); setup(c); return; }
    c.say("open under faults"); copyFault(c.g); F.mask = Open; F.rc = SQLITE_IOERR; F.countdown = 0; F.armed = true; bool failed = throws([&] { c.db->open(c.path); }); F.armed = false; if (failed) c.db->open(c.path); setup(c);
}
static void histories(Gen& g) {
    Cx c{g, pbt::scratch() + "/faults.db", nullptr}; c.wal = g.chance(35, 100); for (auto x : {"", "-journal", "-wal", "-shm"}) std::filesystem::remove(c.path + x); F = {};
    c.db = std::make_unique<DB>(c.path); setup(c); PBT_CHECK(c.db->createDatabase<Row>().isVal(), "createDatabase");
    if (g.chance(60, 100)) { Raw r(c.path); std::size_t n = g.size(40); r.exec("BEGIN"); for (std::size_t i = 0; i < n; ++i) { Rec x{++c.seq, (int32_t)i, text(g), {}}; r.exec(("INSERT INTO Row VALUES(" + std::to_string(x.id) + "," + std::to_string(x.u) + ",'" + x.s + "',NULL)").c_str()); c.rows.push_back(x); } PBT_EQ(r.exec("COMMIT"), SQLITE_OK, "filling the table"); }
    std::size_t ops = 2 + g.size(25);
    for (std::size_t i = 0; i < ops; ++i) {
        if (g.chance(5, 100)) reopen(c); int f = c.failed; step(c);
        if (c.failed != f || g.chance(15, 100)) { { Raw r(c.path); auto got = r.rows("SELECT * FROM Row"); compare(c, got, "another connection"); } if (g.boolean()) { S why; std::vector<S> got; PBT_CHECK(!throws([&] { got = viaLibrary(c); }, &why), "a query after a failure failed: " << why << " after " << c.said); compare(c, got, "the library"); } }
    }
    { Raw r(c.path); compare(c, r.rows("SELECT * FROM Row"), "another connection at the end"); auto ok = r.rows("PRAGMA integrity_check"); PBT_CHECK(ok == std::vector<S>{"ok"}, "integrity: " << quote(ok[0]) << " after " << c.said); }
    compare(c, viaLibrary(c), "the library at the end");
    S why; PBT_CHECK(!throws([&] { auto t = c.db->createDatabase<Note>(); if (!t.isVal()) t.rethrow(); }, &why), "the second table could not be created: " << why << " after " << c.said);
    { Raw r(c.path); auto got = r.rows("SELECT * FROM notes"), want = c.notes; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); PBT_CHECK(got == want, "the second table has " << got.size() << " rows, the model " << want.size() << " after " << c.said); PBT_EQ(r.rows("SELECT name FROM sqlite_master WHERE type='index' AND tbl_name='notes'").size(), (std::size_t)1, "indexes of the second table"); }
    g.describe((c.wal ? "WAL: " : "journal: ") + c.said); g.nontrivial(c.failed > 0); g.label(c.failed > 3 ? "more than 3 failures" : c.failed ? "failures" : "no failure"); if (c.firedAndOk) g.label("a fault was absorbed");
    c.db.reset(); for (auto x : {"", "-journal", "-wal", "-shm"}) std::filesystem::remove(c.path + x);
}
int main(int argc, char** argv) {
    installVfs();
    return pbt::main(argc, argv, {.property = "D03", .rule = "at least one statement failed because of an injected fault, a lock, a limit or a constraint",
        .assumptions = {"faults are reported by the storage layer before it does anything; power failures are SQLite's own business", "statements run in autocommit mode", "journal modes DELETE and WAL"}}, {{"histories", histories, 20000, 600000}});
}

// technique: stateful property-based testing: generated histories of inserts, updates, deletions, failing statements and reopenings over tables of every supported column type and constraint, against an in-memory model of the rows and an independent connection that reads the stored cells
// note: unsigned, bool, enum, date and time columns are not supported by the library (they do not compile); NaN is left out (SQLite stores it as NULL)
// flags: -lsqlite3
#include <common/pbt.hpp>
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <cmath>
#include <filesystem>
#include <limits>
using namespace std::string_view_literals; using namespace HX; using namespace HX::db; using namespace HX::meta::fixed_string_literals; using pbt::Gen; using pbt::quote;
using DB = db::DataBase<DbType::Sqlite3>; using S = std::string;
struct Pt { int x{}; S s{}; bool operator==(Pt const&) const = default; };
template <> struct HX::db::CustomType<Pt> { using Type = Pt; static S toSql(Pt const& p) noexcept { return std::to_string(p.x) + "|" + p.s; } static Pt fromSql(std::string_view t) { auto k = t.find('|'); return k == t.npos ? Pt{-777, S(t)} : Pt{std::stoi(S(t.substr(0, k))), S(t.substr(k + 1))}; } };
// ---- tables
struct Plain { AutoIncrementPrimaryKey<int64_t> id; int32_t a; int64_t b; int16_t c; int8_t e; double d; float f; S s; };
struct Opt { AutoIncrementPrimaryKey<int32_t> id; std::optional<int32_t> a; std::optional<int64_t> b; std::optional<double> d; std::optional<S> s; Blob bl; std::optional<Blob> ob; };
struct Cust { PrimaryKey<int64_t> id; Pt p; std::optional<Pt> q; Constraint<Pt, attr::NotNull> r; Constraint<std::optional<S>, attr::Index<>> i; inline static constexpr std::string_view TableName = "custom_rows"; };
struct Cons { PrimaryKey<S> id; Constraint<S, attr::Unique> u; Constraint<std::optional<int32_t>, attr::DefaultVal<-42>> n; Constraint<S, attr::NotNull, attr::DefaultVal<"it's \"d\" ''"_fs>, attr::DescIndex> s; Constraint<double, attr::DefaultVal<-2.5>> d; inline static constexpr std::string_view TableName = "with_constraints"; };
struct Comp { int32_t a; S b; int64_t v; std::optional<S> w; struct UnionAttr { attr::PrimaryKey<&Comp::a, &Comp::b> pk; attr::Index<attr::IndexOrder<&Comp::v, attr::Order::Desc>, attr::IndexOrder<&Comp::b>> ix; }; };
struct Bare { double d; std::optional<int64_t> n; S s; };
struct Child { AutoIncrementPrimaryKey<int64_t> id; Constraint<int64_t, attr::Foreign<&Cust::id>> parent; S s; };
// ---- values
template <class T> static T const& val(T const& t) { return t; }
template <class T, class... C> static T const& val(Constraint<T, C...> const& c) { return c.get(); }
static S text(Gen& g) { switch (g.draw(6)) { case 0: return ""; case 1: return g.strUpTo("ab'\"%_\\;-"sv, 8); case 2: return g.blob(g.size(40)); case 3: return g.oneof<S>({S("\0", 1), S("a\0b", 3), "NULL", "'", "''", "\"", "é世界😀", "x'41'", "1", "1.0", "0x10", " 7 ", "\xff\xfe", "1e5"}); case 4: return S(g.sizeNear({255, 4096, 70000}, 100000), (char)('a' + g.draw(26))); default: return g.strUpTo("abc", 3); } }
template <std::integral T> static void gen(Gen& g, T& v) { switch (g.draw(4)) { case 0: v = (T)g.range(-3, 3); break; case 1: v = g.oneof<T>({std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::min() + 1), T(std::numeric_limits<T>::max() / 2)}); break; default: v = (T)g.draw(0); } }
template <std::floating_point T> static void gen(Gen& g, T& v) { switch (g.draw(4)) { case 0: v = (T)g.range(-3, 3); break; case 1: v = (T)g.range(-1000, 1000) / T(8); break; case 2: v = g.oneof<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(0.1), T(1e15), T(9007199254740993.0), T(9.3e18)}); break; default: { std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t> u = (decltype(u))g.draw(0); std::memcpy(&v, &u, sizeof v); if (std::isnan(v)) v = T(1) / T(3); } } }
static void gen(Gen& g, S& v) { v = text(g); }
static void gen(Gen& g, Blob& v) { auto s = text(g); v.assign(s.begin(), s.end()); }
static void gen(Gen& g, Pt& v) { gen(g, v.x); v.s = text(g); }
template <class T> static void gen(Gen& g, std::optional<T>& v) { if (g.chance(35, 100)) v.reset(); else { T t{}; gen(g, t); v = std::move(t); } }
template <class T, class... C> static void gen(Gen& g, Constraint<T, C...>& c) { gen(g, c.val); }
// a stored cell, as SQLite itself describes it
static S cell(double d) { char b[40]; snprintf(b, sizeof b, "r:%.17g", d == 0 ? 0.0 : d); return b; }
template <std::integral T> static S cell(T v) { return "i:" + std::to_string((long long)v); }
static S cell(float v) { return cell((double)v); }
static S cell(S const& s) { return "t:" + s; } static S cell(Blob const& b) { return "b:" + S(b.begin(), b.end()); } static S cell(Pt const& p) { return "t:" + CustomType<Pt>::toSql(p); }
template <class T> static S cell(std::optional<T> const& o) { return o ? cell(*o) : "n"; }
template <class T, class... C> static S cell(Constraint<T, C...> const& c) { return cell(c.get()); }
static S join(std::vector<S> const& v) { S r; for (auto& s : v) r += std::to_string(s.size()) + "," + s + ";"; return r; }
template <class F> static bool throws(F&& f) { try { f(); return false; } catch (pbt::Failure&) { throw; } catch (std::exception const&) { return true; } }
// cells that an independent connection reads
static std::vector<S> raw(S const& path, S const& sql) {
    ::sqlite3* c = nullptr; PBT_CHECK(::sqlite3_open_v2(path.c_str(), &c, SQLITE_OPEN_READONLY, nullptr) == SQLITE_OK, "second connection"); std::shared_ptr<::sqlite3> own(c, ::sqlite3_close_v2); ::sqlite3_busy_timeout(c, 0); ::sqlite3_stmt* st = nullptr;
    PBT_CHECK(::sqlite3_prepare_v2(c, sql.c_str(), -1, &st, nullptr) == SQLITE_OK, "second connection: " << ::sqlite3_errmsg(c) << " in " << sql); std::shared_ptr<::sqlite3_stmt> so(st, ::sqlite3_finalize); std::vector<S> rows; int rc;
    while ((rc = ::sqlite3_step(st)) == SQLITE_ROW) { std::vector<S> r; for (int i = 0; i < ::sqlite3_column_count(st); ++i) { auto bytes = [&] { auto p = (char const*)::sqlite3_column_blob(st, i); return S(p ? p : "", (std::size_t)::sqlite3_column_bytes(st, i)); }; switch (::sqlite3_column_type(st, i)) { case SQLITE_INTEGER: r.push_back("i:" + std::to_string(::sqlite3_column_int64(st, i))); break; case SQLITE_FLOAT: r.push_back(cell(::sqlite3_column_double(st, i))); break; case SQLITE_TEXT: r.push_back("t:" + bytes()); break; case SQLITE_BLOB: r.push_back("b:" + bytes()); break; default: r.push_back("n"); } } rows.push_back(join(r)); }
    PBT_CHECK(rc == SQLITE_DONE, "the rows cannot be read by another connection: " << ::sqlite3_errmsg(c)); return rows;
}
static void same(std::vector<S> got, std::vector<S> want, S const& what) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got == want) return; PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " rows instead of " << want.size()); for (std::size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i] == want[i], what << ": " << quote(got[i], 200) << " instead of " << quote(want[i], 200)); }
struct Ctx { Gen& g; S desc; S path; std::unique_ptr<DB> db; std::size_t stored = 0, read = 0, failed = 0; std::set<int64_t> parents; void say(S s) { desc += s + "; "; g.describe(desc); } };
// primary key kinds
enum Kind { Auto, Key, None };
template <class T, Kind K, meta::FixedString Name, auto... Ps> struct Tab {
    std::vector<T> rows; std::vector<uint32_t> unset; int64_t seq = 0; // unset: columns an insertion left out (stored as NULL)
    static constexpr auto N = sizeof...(Ps); static constexpr auto P0 = std::get<0>(std::tuple{Ps...});
    static S nm() { return S(std::string_view(Name)); }
    static S line(T const& t) { return join({cell(t.*Ps)...}); }
    static S stored(T const& t, uint32_t un) { int i = 0; return join({((un >> i++) & 1 ? S("n") : cell(t.*Ps))...}); }
    std::vector<S> storedLines() const { std::vector<S> v; for (std::size_t i = 0; i < rows.size(); ++i) v.push_back(stored(rows[i], unset[i])); return v; }
    std::vector<S> lines() const { std::vector<S> v; for (auto& r : rows) v.push_back(line(r)); return v; }
    template <class R> static S lineOf(R const& r) { return [&]<std::size_t... I>(std::index_sequence<I...>) { return join({cell(r.template get<I>())...}); }(std::make_index_sequence<N>{}); }
    T make(Gen& g) { T t{}; (gen(g, t.*Ps), ...); if constexpr (K == Auto) { if (!g.chance(40, 100)) t.id.val = 0; else { using I = std::remove_reference_t<decltype(t.id.val)>; t.id.val = (I)g.range(-5, 40); } } else if constexpr (std::is_same_v<T, Cust>) { t.id.val = g.range(0, 12); } else if constexpr (std::is_same_v<T, Cons>) { if (g.chance(70, 100)) { t.id.val = g.strUpTo("ab", 2); t.u.val = g.strUpTo("ab", 2); } } else if constexpr (std::is_same_v<T, Comp>) { t.a = (int)g.range(0, 2); if (g.boolean()) t.b = g.strUpTo("ab", 1); }
        if constexpr (std::is_same_v<T, Child>) t.parent.val = g.range(0, 12); return t; }
    // does inserting / changing to t break a constraint
    bool conflicts(Ctx& c, T const& t, std::size_t self = ~0ull, bool skipKey = false) { for (std::size_t i = 0; i < rows.size(); ++i) if (i != self) { if constexpr (K != None && !std::is_same_v<T, Comp>) if (!skipKey && val(rows[i].*P0) == val(t.*P0)) return true; if constexpr (std::is_same_v<T, Comp>) if (rows[i].a == t.a && rows[i].b == t.b) return true; if constexpr (std::is_same_v<T, Cons>) if (rows[i].u.get() == t.u.get()) return true; }
        if constexpr (std::is_same_v<T, Child>) if (!c.parents.contains(t.parent.get())) return true; (void)c; (void)t; (void)self; (void)skipKey; return false; }
    void create(Ctx& c) { auto r = c.db->template createDatabase<T>(); PBT_CHECK(r.isVal(), "createDatabase<" << nm() << ">: " << r.what()); }
    // insert an object; the primary key of an auto-increment table is chosen by the database unless it is asked for
    template <bool WithKey, int How> void insert(Ctx& c) {
        T t = make(c.g); constexpr bool full = WithKey || K == None; if constexpr (!full && K == Key) { return; } else {
        if constexpr (!full) t.id.val = (std::remove_reference_t<decltype(t.id.val)>)(seq + 1);
        bool bad = conflicts(c, t); c.say("insert " + nm() + (full ? " with key" : "") + (How == 1 ? " returning" : How == 2 ? " noThrow" : "") + " " + quote(line(t), 80)); S back; bool t0;
        if constexpr (How == 0) t0 = throws([&] { c.db->template sqlTemplate<Name, 1, WithKey>().template insert<T, WithKey>(t).exec(); });
        else if constexpr (How == 1) t0 = throws([&] { auto r = c.db->template sqlTemplate<Name, 2, WithKey>().template insert<T, WithKey>(t).template returning<Ps...>().exec(); back = lineOf(r); });
        else t0 = !c.db->template sqlTemplate<Name, 3, WithKey>().template insert<T, WithKey>(t).execNoThrow().isVal();
        PBT_CHECK(t0 == bad, "inserting into " << nm() << (t0 ? " failed" : " succeeded although it breaks a constraint") << ": " << quote(line(t), 200)); if (t0) { ++c.failed; return; }
        if constexpr (How == 1) PBT_CHECK(back == line(t), "RETURNING gave " << quote(back, 200) << " for the row " << quote(line(t), 200)); add(c, t); } }
    void add(Ctx& c, T const& t, uint32_t un = 0) { unset.push_back(un); if constexpr (K == Auto) seq = std::max<int64_t>(seq, t.id.get()); if constexpr (std::is_same_v<T, Cust>) c.parents.insert(t.id.get()); rows.push_back(t); ++c.stored; }
    template <auto P, auto... Qs> static constexpr bool given() { return ([] { if constexpr (std::is_same_v<std::remove_const_t<decltype(Qs)>, std::remove_const_t<decltype(P)>>) return Qs == P; else return false; }() || ...); }
    // insert some columns; the others get their default
    template <int Id, auto... Qs> void insertCols(Ctx& c) {
        T m = make(c.g), t{}; if constexpr (std::is_same_v<T, Cons>) { t.n.val = -42; t.s.val = "it's \"d\" ''"; t.d.val = -2.5; } ((t.*Qs = m.*Qs), ...); uint32_t un = 0; { int i = 0; ((un |= (given<Ps, Qs...>() ? 0u : 1u) << i++), ...); if constexpr (K == Auto) un &= ~1u; if constexpr (std::is_same_v<T, Cons>) un &= ~0b11100u; if constexpr (std::is_same_v<T, Cust>) (void)0; } bool hasKey = false; if constexpr (K == Auto) { hasKey = ([&] { if constexpr (std::is_same_v<std::remove_const_t<decltype(Qs)>, std::remove_const_t<decltype(P0)>>) return Qs == P0; else return false; }() || ...); if (!hasKey) t.id.val = (std::remove_reference_t<decltype(t.id.val)>)(seq + 1); }
        bool bad = conflicts(c, t); c.say("insert columns of " + nm() + " " + quote(line(t), 80)); S back; bool t0 = throws([&] { auto r = c.db->template sqlTemplate<Name, 4, Id>().template insert<Qs...>((m.*Qs)...).template returning<Ps...>().exec(); back = lineOf(r); });
        PBT_CHECK(t0 == bad, "inserting columns into " << nm() << (t0 ? " failed" : " succeeded although it breaks a constraint") << ": " << quote(line(t), 200)); if (t0) { ++c.failed; return; }
        PBT_CHECK(back == line(t), "RETURNING gave " << quote(back, 200) << " for the row " << quote(line(t), 200)); add(c, t, un); }
    void update(Ctx& c) { if constexpr (K == Auto || std::is_same_v<T, Cons>) { if (rows.empty()) return; std::size_t k = c.g.draw(rows.size()); T t = make(c.g); t.*P0 = rows[k].*P0; bool bad = conflicts(c, t, k, true); c.say("update " + nm() + " to " + quote(line(t), 80)); using KT = RemoveConstraintToType<meta::GetMemberPtrType<std::remove_const_t<decltype(P0)>>>; KT key = val(rows[k].*P0); uint64_t n = 0; S back; std::size_t m = 1; bool ret = c.g.boolean();
            bool t0 = throws([&] { if (ret) { auto r = c.db->template sqlTemplate<Name, 5>().template update<T>(t).template where<Col(P0) == param<KT>>(key).template returning<Ps...>().execGetChanges(); n = r.changes; m = r.columnRes.size(); if (m == 1) back = lineOf(r.columnRes[0]); } else n = c.db->template sqlTemplate<Name, 6>().template update<T>(t).template where<Col(P0) == param<KT>>(key).execGetChanges(); });
            PBT_CHECK(t0 == bad, "updating " << nm() << (t0 ? " failed" : " succeeded although it breaks a constraint") << ": " << quote(line(t), 200)); if (t0) { ++c.failed; return; } PBT_EQ(n, (uint64_t)1, "rows changed"); PBT_EQ(m, (std::size_t)1, "rows returned"); if (ret) PBT_CHECK(back == line(t), "RETURNING gave " << quote(back, 200) << " for the row " << quote(line(t), 200)); rows[k] = t; unset[k] = 0; ++c.stored; } }
    void erase(Ctx& c) { if constexpr (K != None && !std::is_same_v<T, Comp>) { if (rows.empty()) return; std::size_t k = c.g.draw(rows.size()); using KT = RemoveConstraintToType<meta::GetMemberPtrType<std::remove_const_t<decltype(P0)>>>; KT key = val(rows[k].*P0); if constexpr (std::is_same_v<T, Cust>) return; c.say("delete from " + nm()); auto n = c.db->template sqlTemplate<Name, 7>().template deleteForm<T>().template where<Col(P0) == param<KT>>(key).execGetChanges(); PBT_EQ(n, (uint64_t)1, "rows deleted"); rows.erase(rows.begin() + (long)k); unset.erase(unset.begin() + (long)k); } }
    // rows whose column equals a value
    template <std::size_t I> void find(Ctx& c) { constexpr auto P = std::get<I>(std::tuple{Ps...}); using CT = RemoveConstraintToType<meta::GetMemberPtrType<std::remove_const_t<decltype(P)>>>; using VT = meta::RemoveOptionalWrapType<CT>; VT v{}; if (!rows.empty() && c.g.chance(80, 100)) { auto const& x = val(rows[c.g.draw(rows.size())].*P); if constexpr (meta::IsOptionalVal<CT>) { if (x) v = *x; } else v = x; } else gen(c.g, v);
        auto r = c.db->template sqlTemplate<Name, 8, I>().template select<Col(Ps)...>().template from<T>().template where<Col(P) == param<VT>>(v).exec(); std::vector<S> got, want; for (auto& x : r) got.push_back(lineOf(x)); for (std::size_t q = 0; q < rows.size(); ++q) { auto& x = rows[q]; if ((unset[q] >> I) & 1) continue; auto const& y = val(x.*P); if constexpr (meta::IsOptionalVal<CT>) { if (y && *y == v) want.push_back(line(x)); } else if (y == v) want.push_back(line(x)); } c.say("find in " + nm() + " column " + std::to_string(I)); same(got, want, "rows of " + nm() + " whose column " + std::to_string(I) + " equals " + quote(cell(v), 60)); ++c.read; }
    void check(Ctx& c) {
        auto r = c.db->template sqlTemplate<Name, 9>().template select<Col(Ps)...>().template from<T>().exec(); std::vector<S> got; for (auto& x : r) got.push_back(lineOf(x)); same(got, lines(), "rows of " + nm() + " selected"); c.read += got.size();
        auto one = c.db->template sqlTemplate<Name, 10>().template select<Col(P0).template as<"k">()>().template from<T>().exec(); got.clear(); for (auto& x : one) got.push_back(join({cell(x.template get<"k">())})); std::vector<S> want; for (auto& x : rows) want.push_back(join({cell(x.*P0)})); same(got, want, "first column of " + nm() + " selected");
        same(raw(c.path, "SELECT * FROM " + nm()), storedLines(), "rows of " + nm() + " that another connection sees"); }
    void step(Ctx& c) { switch (c.g.draw(12)) { case 0: case 1: insert<false, 0>(c); break; case 2: insert<false, 1>(c); break; case 3: insert<false, 2>(c); break; case 4: insert<true, 0>(c); break; case 5: insert<true, 1>(c); break; case 6: insert<true, 2>(c); break; case 7: cols(c); break; case 8: update(c); break; case 9: erase(c); break; default: { auto k = c.g.draw(N); [&]<std::size_t... I>(std::index_sequence<I...>) { ((I == k ? find<I>(c) : void()), ...); }(std::make_index_sequence<N>{}); } } }
    void cols(Ctx& c) {
        if constexpr (std::is_same_v<T, Plain>) { if (c.g.boolean()) insertCols<0, &Plain::s, &Plain::a>(c); else insertCols<1, &Plain::id, &Plain::f, &Plain::e, &Plain::c>(c); }
        else if constexpr (std::is_same_v<T, Opt>) { if (c.g.boolean()) insertCols<0, &Opt::ob, &Opt::a>(c); else insertCols<1, &Opt::s, &Opt::d, &Opt::bl>(c); }
        else if constexpr (std::is_same_v<T, Cust>) insertCols<0, &Cust::r, &Cust::id, &Cust::q, &Cust::p>(c);
        else if constexpr (std::is_same_v<T, Cons>) { switch (c.g.draw(3)) { case 0: insertCols<0, &Cons::id, &Cons::u>(c); break; case 1: insertCols<1, &Cons::u, &Cons::n, &Cons::id>(c); break; default: insertCols<2, &Cons::d, &Cons::id, &Cons::s, &Cons::u>(c); } }
        else if constexpr (std::is_same_v<T, Comp>) insertCols<0, &Comp::w, &Comp::b, &Comp::a, &Comp::v>(c);
        else if constexpr (std::is_same_v<T, Child>) insertCols<0, &Child::parent, &Child::s>(c);
        else insertCols<0, &Bare::n, &Bare::s, &Bare::d>(c); }
};
static void open(Ctx& c) { switch (c.db ? c.g.draw(4) : 3) { case 0: c.say("close and open"); c.db->close(); [[fallthrough]]; case 1: { c.say("open again, unterminated path"); auto p = std::shared_ptr<char[]>(new char[c.path.size() + 1]); std::memcpy(p.get(), c.path.data(), c.path.size()); p[c.path.size()] = 'x'; c.db->open({p.get(), c.path.size()}); break; }
    case 2: { c.say("move-assign a fresh connection"); DB other; other.open(c.path); *c.db = std::move(other); break; } default: c.say("new object"); c.db = std::make_unique<DB>(c.path); } c.db->exec("PRAGMA synchronous=OFF"); c.db->exec("PRAGMA journal_mode=MEMORY"); c.db->exec("PRAGMA foreign_keys=ON"); }
static void histories(Gen& g) {
    Ctx c{g, "", pbt::scratch() + "/rows.db", nullptr, 0, 0, 0, {}}; std::filesystem::remove(c.path); open(c);
    Tab<Plain, Auto, "Plain", &Plain::id, &Plain::a, &Plain::b, &Plain::c, &Plain::e, &Plain::d, &Plain::f, &Plain::s> plain; Tab<Opt, Auto, "Opt", &Opt::id, &Opt::a, &Opt::b, &Opt::d, &Opt::s, &Opt::bl, &Opt::ob> opt; Tab<Cust, Key, "custom_rows", &Cust::id, &Cust::p, &Cust::q, &Cust::r, &Cust::i> cust; Tab<Cons, Key, "with_constraints", &Cons::id, &Cons::u, &Cons::n, &Cons::s, &Cons::d> cons; Tab<Comp, Key, "Comp", &Comp::a, &Comp::b, &Comp::v, &Comp::w> comp; Tab<Bare, None, "Bare", &Bare::d, &Bare::n, &Bare::s> bare; Tab<Child, Auto, "Child", &Child::id, &Child::parent, &Child::s> child;
    auto each = [&](auto&& f) { f(plain); f(opt); f(cust); f(cons); f(comp); f(bare); f(child); }; each([&](auto& t) { t.create(c); });
    std::size_t ops = 3 + g.size(40); unsigned focus = g.chance(60, 100) ? (unsigned)g.draw(7) : 7;
    for (std::size_t o = 0; o < ops; ++o) { if (g.chance(6, 100)) { open(c); if (g.boolean()) each([&](auto& t) { t.create(c); }); }
        unsigned k = focus < 7 && g.chance(85, 100) ? focus : (unsigned)g.draw(7), i = 0; if (k == 6 && c.parents.empty()) k = 2; each([&](auto& t) { if (i++ == k) { t.step(c); if (g.chance(20, 100)) t.check(c); } }); }
    each([&](auto& t) { t.check(c); }); if (g.boolean()) { open(c); each([&](auto& t) { t.check(c); }); }
    g.nontrivial(c.stored > 2 && c.read > 0); if (c.failed) g.label("a statement failed"); c.db.reset(); std::filesystem::remove(c.path);
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "D01", .rule = "at least 3 rows were stored or changed and some were read back", .assumptions = {"NaN is not stored (SQLite has no NaN)", "a column left out of an insertion without a default reads as the zero value or as absent", "auto-increment identifiers stay below the largest 64-bit integer", "statements run one at a time on one connection; a second connection only reads"}}, {{"histories", histories, 6000, 120000}});
}

// gen: tools/gen_queries.py
// technique: property-based testing over generated SQL statements in the library's C++ notation: random histories of queries, updates and deletions, run repeatedly with other parameters, compared with a relational model that evaluates the same expression with SQL's three-valued logic
// note: conditions are generated programs (a different set per seed); text comparison is bytewise, LIKE folds ASCII case; integer sums outside the column type are skipped
// flags: -lsqlite3
#include <common/pbt.hpp>
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <cmath>
#include <functional>
#include <map>
using namespace std::string_view_literals; using namespace HX; using namespace HX::db; using namespace HX::meta::fixed_string_literals; using pbt::Gen; using pbt::quote;
using DB = db::DataBase<DbType::Sqlite3>; using Str = std::string;
struct A { AutoIncrementPrimaryKey<int64_t> id; int32_t x, y; int64_t z; double d; std::string s; std::optional<int32_t> o; std::optional<std::string> t; };
struct B { PrimaryKey<int64_t> id; int32_t x; std::string s; std::optional<int32_t> o; inline static constexpr std::string_view TableName = "other_rows"; };
struct C { PrimaryKey<int64_t> id; int32_t y; std::optional<double> e; };
// ---- values of the relational model
struct V { enum K { N, I, R, T } k = N; int64_t i = 0; double r = 0; Str s;
    V() = default; V(int v) : k(I), i(v) {} V(int64_t v) : k(I), i(v) {} V(double v) : k(R), r(v) {} V(char const* v) : k(T), s(v) {} V(Str v) : k(T), s(std::move(v)) {}
    template <class X> V(std::optional<X> const& o) { if (o) *this = V(*o); } template <class X, class... Cs> V(Constraint<X, Cs...> const& c) : V(c.get()) {}
    double real() const { return k == R ? r : (double)i; } };
using Rw = std::vector<V>; using Ps = std::vector<V>; constexpr std::size_t WIDTH = 15;
static Str show(V const& v) { switch (v.k) { case V::N: return "NULL"; case V::I: return std::to_string(v.i); case V::R: { char b[40]; snprintf(b, sizeof b, "%.17gr", v.r == 0 ? 0.0 : v.r); return b; } default: return quote(v.s, 40); } }
static Str show(Rw const& r) { Str o = "("; for (auto& v : r) o += (o.size() > 1 ? ", " : "") + show(v); return o + ")"; }
// total order: NULL, numbers, text
static int cmp(V const& a, V const& b) { auto rank = [](V const& v) { return v.k == V::N ? 0 : v.k == V::T ? 2 : 1; }; if (rank(a) != rank(b)) return rank(a) < rank(b) ? -1 : 1; if (a.k == V::N) return 0; if (a.k == V::T) { int c = a.s.compare(b.s); return c < 0 ? -1 : c > 0; } if (a.k == V::I && b.k == V::I) return a.i < b.i ? -1 : a.i > b.i; long double p = a.k == V::I ? (long double)a.i : (long double)a.r, q = b.k == V::I ? (long double)b.i : (long double)b.r; return p < q ? -1 : p > q; }
static bool truth(V const& v) { return v.k == V::I ? v.i != 0 : v.k == V::R ? v.r != 0 : false; }
template <class F> static V rel(V const& a, V const& b, F&& f) { if (a.k == V::N || b.k == V::N) return {}; return V((int)f(cmp(a, b))); }
static V lt(V const& a, V const& b) { return rel(a, b, [](int c) { return c < 0; }); } static V le(V const& a, V const& b) { return rel(a, b, [](int c) { return c <= 0; }); } static V gt(V const& a, V const& b) { return rel(a, b, [](int c) { return c > 0; }); } static V ge(V const& a, V const& b) { return rel(a, b, [](int c) { return c >= 0; }); } static V eq(V const& a, V const& b) { return rel(a, b, [](int c) { return c == 0; }); } static V ne(V const& a, V const& b) { return rel(a, b, [](int c) { return c != 0; }); }
static V num(double d) { return std::isnan(d) ? V() : V(d); }
template <class F, class G> static V arith(V const& a, V const& b, F&& f, G&& g) { if (a.k == V::N || b.k == V::N) return {}; if (a.k == V::I && b.k == V::I) { int64_t o; if (!f(a.i, b.i, &o)) return V(o); } return num(g(a.real(), b.real())); }
static V add(V const& a, V const& b) { return arith(a, b, [](int64_t p, int64_t q, int64_t* o) { return __builtin_add_overflow(p, q, o); }, [](double p, double q) { return p + q; }); }
static V sub(V const& a, V const& b) { return arith(a, b, [](int64_t p, int64_t q, int64_t* o) { return __builtin_sub_overflow(p, q, o); }, [](double p, double q) { return p - q; }); }
static V mul(V const& a, V const& b) { return arith(a, b, [](int64_t p, int64_t q, int64_t* o) { return __builtin_mul_overflow(p, q, o); }, [](double p, double q) { return p * q; }); }
static V div(V const& a, V const& b) { if (b.k != V::N && b.real() == 0) return {}; return arith(a, b, [](int64_t p, int64_t q, int64_t* o) { if (q == -1 && p == INT64_MIN) return true; *o = p / q; return false; }, [](double p, double q) { return p / q; }); }
static int64_t integer(V const& v) { if (v.k == V::I) return v.i; if (v.r <= -9.2233720368547758e18) return INT64_MIN; if (v.r >= 9.2233720368547758e18) return INT64_MAX; return (int64_t)v.r; }
static V mod(V const& a, V const& b) { if (a.k == V::N || b.k == V::N) return {}; int64_t p = integer(a), q = integer(b); if (q == 0) return {}; int64_t m = q == -1 ? 0 : p % q; return a.k == V::I && b.k == V::I ? V(m) : V((double)m); }
static V lnot(V const& a) { return a.k == V::N ? V() : V((int)!truth(a)); }
static V land(V const& a, V const& b) { if ((a.k != V::N && !truth(a)) || (b.k != V::N && !truth(b))) return V(0); return a.k == V::N || b.k == V::N ? V() : V(1); }
static V lor(V const& a, V const& b) { if (truth(a) || truth(b)) return V(1); return a.k == V::N || b.k == V::N ? V() : V(0); }
static V in(V const& a, std::vector<V> const& l) { if (l.empty()) return V(0); V r(0); for (auto& x : l) r = lor(r, eq(a, x)); return r; }
static V notIn(V const& a, std::vector<V> const& l) { return lnot(in(a, l)); }
static V isNull(V const& a) { return V((int)(a.k == V::N)); } static V isNotNull(V const& a) { return V((int)(a.k != V::N)); }
static std::size_t chr(std::string_view s) { std::size_t n = 1; if ((unsigned char)s[0] >= 0xC0) while (n < s.size() && ((unsigned char)s[n] & 0xC0) == 0x80) ++n; return n; }
static bool likes(std::string_view s, std::string_view p) { if (p.empty()) return s.empty(); if (p[0] == '%') { for (;;) { if (likes(s, p.substr(1))) return true; if (s.empty()) return false; s.remove_prefix(chr(s)); } } if (s.empty()) return false; if (p[0] == '_') return likes(s.substr(chr(s)), p.substr(1)); auto low = [](char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }; return low(s[0]) == low(p[0]) && likes(s.substr(1), p.substr(1)); }
static V like(V const& a, char const* p) { return a.k == V::N ? V() : V((int)likes(a.s, p)); }
// ---- aggregates over a group
using Group = std::vector<Rw>;
static V agg_sum(Group const& q, int c) { V r; for (auto& x : q) if (x[c].k != V::N) r = r.k == V::N ? x[c] : add(r, x[c]); return r; }
static V agg_avg(Group const& q, int c) { V s = agg_sum(q, c); if (s.k == V::N) return s; int n = 0; for (auto& x : q) n += x[c].k != V::N; return V(s.real() / n); }
static V agg_min(Group const& q, int c) { V r; for (auto& x : q) if (x[c].k != V::N && (r.k == V::N || cmp(x[c], r) < 0)) r = x[c]; return r; }
static V agg_max(Group const& q, int c) { V r; for (auto& x : q) if (x[c].k != V::N && (r.k == V::N || cmp(x[c], r) > 0)) r = x[c]; return r; }
static V agg_count(Group const& q, int c) { int64_t n = 0; for (auto& x : q) n += x[c].k != V::N; return V(n); }
static V agg_countAll(Group const& q, int) { return V((int64_t)q.size()); }
static V agg_countDistinct(Group const& q, int c) { std::vector<V> s; for (auto& x : q) if (x[c].k != V::N && std::none_of(s.begin(), s.end(), [&](V const& y) { return cmp(x[c], y) == 0; })) s.push_back(x[c]); return V((int64_t)s.size()); }
static bool SKIP;
// the value of a result column of the given C++ type: NULL reads as the zero value unless the column is optional
static V asColumn(V v, bool optional, char type) { if (v.k == V::N) return optional ? V() : type == 'd' ? V(0.0) : type == 's' ? V("") : V((int64_t)0); if (type == 'i' && v.k == V::I && (v.i > INT32_MAX || v.i < INT32_MIN)) SKIP = true; if (type == 'd') return V(v.real()); return v; }
// ---- generation
static void gen(Gen& g, int32_t& v) { v = g.chance(85, 100) ? (int32_t)g.range(-3, 3) : g.oneof<int32_t>({100, INT32_MAX, INT32_MIN, -INT32_MAX, 7}); }
static void gen(Gen& g, int64_t& v) { v = g.chance(80, 100) ? g.range(-3, 3) : g.oneof<int64_t>({INT64_MAX, INT64_MIN, -INT64_MAX, 4294967296, INT32_MAX, 100}); }
static void gen(Gen& g, double& v) { v = g.chance(60, 100) ? (double)g.range(-24, 24) / 8 : g.oneof<double>({0.0, 1.0, 2.0, 3.0, -1.5, 0.125, 100.0, 1e10, -0.25}); }
static void gen(Gen& g, Str& v) { v = g.chance(75, 100) ? g.oneof<Str>({"", "a", "A", "ab", "b'", "'", "''", "it''s", "%", "a%", "_", "\"", "a b", "B", "é", "?", ";--", "\\", "ba", "NULL", "1", "a\\b"}) : g.strUpTo("abAB'%_é"sv.substr(0, 7), 5); }
template <class X> static void gen(Gen& g, std::optional<X>& v) { if (g.chance(30, 100)) v.reset(); else { X x{}; gen(g, x); v = std::move(x); } }
template <class... T> static Ps genAll(Gen& g, std::tuple<T...>& t) { return std::apply([&](auto&... x) { Ps p; ((gen(g, x), p.push_back(V(x))), ...); return p; }, t); }
static A genA(Gen& g) { A a{}; gen(g, a.x); gen(g, a.y); gen(g, a.z); gen(g, a.d); gen(g, a.s); gen(g, a.o); gen(g, a.t); return a; }
static B genB(Gen& g) { B b{}; gen(g, b.x); gen(g, b.s); gen(g, b.o); return b; }
static C genC(Gen& g) { C c{}; gen(g, c.y); gen(g, c.e); return c; }
static Rw place(std::size_t at, std::initializer_list<V> l) { Rw r(WIDTH); for (auto& v : l) r[at++] = v; return r; }
static Rw row(A const& a) { return place(0, {a.id, a.x, a.y, a.z, a.d, a.s, a.o, a.t}); } static Rw row(B const& b) { return place(8, {b.id, b.x, b.s, b.o}); } static Rw row(C const& c) { return place(12, {c.id, c.y, c.e}); }
static std::size_t at(char t) { return t == 'A' ? 0 : t == 'B' ? 8 : 12; } static std::size_t width(char t) { return t == 'A' ? 8 : t == 'B' ? 4 : 3; }
struct Cx { Gen& g; std::unique_ptr<DB> db; std::map<char, Group> tables; std::set<char> made; Str desc; std::map<Str, int> ran; int rows = 0, again = 0, refused = 0;
    void say(Str const& name, std::vector<Ps const*> const& ps) { desc += name + "["; for (auto* p : ps) for (auto& v : *p) desc += ::show(v) + " "; desc += "]; "; if (desc.size() > 1500) desc.erase(0, 500); g.describe(desc); if (ran[name]++) ++again; } };
static Group all(Cx& c, char const* t) { return c.tables[*t]; }
template <class F> static Group joined(Cx& c, Group const& rows, char const* t, char kind, F&& on) {
    Group out; auto& right = c.tables[*t]; std::vector<bool> hit(right.size()); for (auto& l : rows) { bool any = false; for (std::size_t k = 0; k < right.size(); ++k) { Rw r = l; for (std::size_t i = at(*t); i < at(*t) + width(*t); ++i) r[i] = right[k][i]; if (on(r)) { out.push_back(std::move(r)); any = hit[k] = true; } } if (!any && kind == 'l') out.push_back(l); }
    if (kind == 'r') for (std::size_t k = 0; k < right.size(); ++k) if (!hit[k]) out.push_back(right[k]);
    return out; }
template <class T, class F> static void keep(std::vector<T>& v, F&& f) { std::erase_if(v, [&](T const& x) { return !f(x); }); }
template <class F> static std::vector<Group> group(Group const& rows, F&& key) { std::vector<std::pair<Rw, Group>> m; for (auto& r : rows) { Rw k = key(r); auto it = std::find_if(m.begin(), m.end(), [&](auto& e) { for (std::size_t i = 0; i < k.size(); ++i) if (cmp(e.first[i], k[i])) return false; return true; }); if (it == m.end()) { m.push_back({k, {}}); it = m.end() - 1; } it->second.push_back(r); } std::vector<Group> o; for (auto& e : m) o.push_back(std::move(e.second)); return o; }
static V const& key(Rw const& r, int i) { return r[(std::size_t)i]; } static V const& key(Group const& q, int i) { return q[0][(std::size_t)i]; }
template <class T> static void sorted(std::vector<T>& v, std::vector<std::pair<int, bool>> const& by) { std::stable_sort(v.begin(), v.end(), [&](T const& a, T const& b) { for (auto [i, desc] : by) if (int d = cmp(key(a, i), key(b, i))) return desc ? d > 0 : d < 0; return false; }); }
template <class T> static void cut(std::vector<T>& v, int64_t off, int64_t n) { v.erase(v.begin(), v.begin() + std::min<long>((long)v.size(), (long)off)); if ((int64_t)v.size() > n) v.resize((std::size_t)n); }
static bool less(Rw const& a, Rw const& b) { for (std::size_t i = 0; i < a.size(); ++i) if (int d = cmp(a[i], b[i])) return d < 0; return false; }
static void same(Group got, Group want, bool sequence, Str const& what) { if (!sequence) { std::sort(got.begin(), got.end(), less); std::sort(want.begin(), want.end(), less); } for (std::size_t i = 0; i < std::max(got.size(), want.size()); ++i) { Str g = i < got.size() ? show(got[i]) : "nothing", w = i < want.size() ? show(want[i]) : "nothing"; PBT_CHECK(g == w, "row " << i << " is " << g << " instead of " << w << " (" << got.size() << " rows, expected " << want.size() << ") for " << what); } }
template <class T> static T unwrap(container::Try<T>&& t) { if (!t) t.rethrow(); if constexpr (!std::is_void_v<T>) return std::move(t).move(); }
template <class F> static bool throws(F&& f) { try { f(); return false; } catch (pbt::Failure&) { throw; } catch (std::exception const&) { return true; } }
template <class F> static void compare(Cx& c, std::vector<char const*> const& used, Group const& want, bool sequence, F&& run, char const* text) {
    bool skip = SKIP; SKIP = false; bool ok = true; for (auto t : used) ok &= c.made.contains(*t); if (!ok) { PBT_CHECK(throws(run), "a query over a table that does not exist returned rows: " << text); ++c.refused; return; }
    Group got; Str err; try { got = run(); } catch (pbt::Failure&) { throw; } catch (std::exception const& e) { err = e.what(); } PBT_CHECK(err.empty(), "failed with " << quote(err, 200) << ": " << text); if (!skip) same(std::move(got), want, sequence, text); c.rows += (int)want.size(); }
static void checkTable(Cx& c, char t, Str const& after);
template <class P, class S, class J, class F> static void mutate(Cx& c, char const* t, P&& pred, S&& set, J&& proj, bool ret, F&& run, char const* text) {
    long n = -1; Group got; if (!c.made.contains(*t)) { PBT_CHECK(throws([&] { run(n, got); }), "a change of a table that does not exist succeeded: " << text); ++c.refused; return; }
    Str err; try { run(n, got); } catch (pbt::Failure&) { throw; } catch (std::exception const& e) { err = e.what(); } PBT_CHECK(err.empty(), "failed with " << quote(err, 200) << ": " << text);
    Group want, left; long m = 0; for (auto& r : c.tables[*t]) { if (!pred(r)) { left.push_back(r); continue; } ++m; if constexpr (!std::is_null_pointer_v<std::remove_cvref_t<S>>) { Rw x = r; set(x); want.push_back(proj(x)); left.push_back(std::move(x)); } else want.push_back(proj(r)); }
    c.tables[*t] = std::move(left); if (n >= 0) PBT_CHECK(n == m, n << " rows reported as changed instead of " << m << ": " << text); if (ret) same(std::move(got), want, false, text); c.rows += (int)m; checkTable(c, *t, text); }
#include "gen/D02.hpp"
static void checkTable(Cx& c, char t, Str const& after) { Group got; auto& db = *c.db; auto w = [&](auto& r, std::size_t at, auto... k) { Rw x(WIDTH); (void)((x[at++] = V(r.template get<k.value>()), 0) + ... + 0); got.push_back(std::move(x)); };
    auto n = []<std::size_t K> { return std::integral_constant<std::size_t, K>{}; };
    if (t == 'A') { for (auto& r : db.sqlTemplate<"allA"_fs>().select<Col(&A::id), Col(&A::x), Col(&A::y), Col(&A::z), Col(&A::d), Col(&A::s), Col(&A::o), Col(&A::t)>().from<A>().exec()) w(r, 0, n.operator()<0>(), n.operator()<1>(), n.operator()<2>(), n.operator()<3>(), n.operator()<4>(), n.operator()<5>(), n.operator()<6>(), n.operator()<7>()); }
    else if (t == 'B') { for (auto& r : db.sqlTemplate<"allB"_fs>().select<Col(&B::id), Col(&B::x), Col(&B::s), Col(&B::o)>().from<B>().exec()) w(r, 8, n.operator()<0>(), n.operator()<1>(), n.operator()<2>(), n.operator()<3>()); }
    else { for (auto& r : db.sqlTemplate<"allC"_fs>().select<Col(&C::id), Col(&C::y), Col(&C::e)>().from<C>().exec()) w(r, 12, n.operator()<0>(), n.operator()<1>(), n.operator()<2>()); }
    same(std::move(got), c.tables[t], false, Str("table ") + t + " after " + after); }
template <class T> static void insert(Cx& c, char t, T v) { auto& rows = c.tables[t]; int64_t id = 1; for (auto& r : rows) id = std::max(id, r[at(t)].i + 1); if (c.g.chance(10, 100)) id += 3; v.id.val = id; Rw r = row(v); c.db->template sqlTemplate<"ins"_fs, std::is_same_v<T, A> ? 0 : std::is_same_v<T, B> ? 1 : 2>().template insert<T, true>(v).exec(); c.desc += "insert " + show(r) + "; "; rows.push_back(std::move(r)); }
static void make(Cx& c, char t) { if (t == 'A') PBT_CHECK(c.db->createDatabase<A>(), "createDatabase A"); else if (t == 'B') PBT_CHECK(c.db->createDatabase<B>(), "createDatabase B"); else PBT_CHECK(c.db->createDatabase<C>(), "createDatabase C"); c.made.insert(t); c.desc += Str("create ") + t + "; "; }
static void addRow(Cx& c, char t) { if (!c.made.contains(t)) return; if (t == 'A') insert(c, t, genA(c.g)); else if (t == 'B') insert(c, t, genB(c.g)); else insert(c, t, genC(c.g)); }
static void run(Cx& c, Fn const* fs, std::size_t n, std::size_t favourite) { fs[c.g.chance(40, 100) ? favourite % n : c.g.draw(n)](c); }
static void histories(Gen& g, bool queriesOnly) {
    Cx c{g, std::make_unique<DB>(":memory:"), {}, {}, "", {}, 0, 0, 0}; SKIP = false; std::size_t fs = g.draw(1000), fu = g.draw(1000);
    if (g.chance(12, 100)) { for (auto k = g.draw(4); k; --k) run(c, SELECTS, std::size(SELECTS), fs); if (g.boolean()) make(c, 'A'); run(c, SELECTS, std::size(SELECTS), fs); if (!queriesOnly) { run(c, UPDATES, std::size(UPDATES), fu); run(c, DELETES, std::size(DELETES), fu); } }
    for (char t : {'A', 'B', 'C'}) { make(c, t); for (auto n = g.chance(10, 100) ? 0 : t == 'A' ? 1 + g.size(14) : 1 + g.size(7); n; --n) addRow(c, t); }
    std::size_t ops = 4 + g.size(30);
    for (std::size_t o = 0; o < ops; ++o) { auto k = g.draw(queriesOnly ? 8 : 14); if (k < 6) run(c, SELECTS, std::size(SELECTS), fs); else if (k < 8) addRow(c, g.pick("AAABC"sv)); else if (k < 12) run(c, UPDATES, std::size(UPDATES), fu); else run(c, DELETES, std::size(DELETES), fu); }
    g.nontrivial(c.rows > 3); if (c.again) g.label("a statement ran again"); if (c.refused) g.label("a table was missing");
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "D02", .rule = "the statements returned or changed more than 3 rows", .assumptions = {"text is compared bytewise and LIKE folds ASCII case (SQLite's defaults)", "sums that do not fit the column type are not compared", "sums of floating point columns use values whose sums are exact"}},
        {{"queries", [](Gen& g) { histories(g, true); }, 6000, 60000}, {"changes", [](Gen& g) { histories(g, false); }, 6000, 60000}});
}

// technique: stateful property-based testing: random pointer operations against an ownership model, objects counting their own construction and destruction
#include <common/tracked.hpp>
#include <HXLibs/container/CoSharedPtr.hpp>
using namespace pbt; using namespace HX::container; using tr::Obj;
struct Node; using NP = CoSharedPtr<Node>;
struct Node { Obj<0> o; NP next; Node(int x, NP n) : o(x), next(std::move(n)) {} };
static void pointers(Gen& g) {
    tr::reset(); std::string log; int ops = 1 + (int)g.size(24); bool shared = false;
    {
        using P = CoSharedPtr<Obj<0>>; std::vector<std::unique_ptr<P>> p; int m[5] = {-1, -1, -1, -1, -1}; std::vector<int> val; std::vector<Obj<0> const*> addr;
        for (int i = 0; i < 5; ++i) p.push_back(std::make_unique<P>());
        auto owners = [&](int id) { std::size_t n = 0; for (int x : m) n += x == id; return n; };
        auto fresh = [&](int x, int i) { val.push_back(x); addr.push_back(p[i]->get()); m[i] = (int)val.size() - 1; };
        for (int k = 0; k < ops; ++k) {
            int i = (int)g.draw(5), j = (int)g.draw(5), x = (int)g.draw(100); auto n = std::to_string(i) + (i == j ? "self " : std::to_string(j) + " ");
            switch (g.draw(10)) {
            case 0: log += "make" + n; *p[i] = makeCoSharedPtr<Obj<0>>(x); fresh(x, i); break;
            case 1: log += "value" + n; *p[i] = P{Obj<0>(x)}; fresh(x, i); break;
            case 2: log += "reset" + n; p[i]->reset(Obj<0>(x)); fresh(x, i); break;
            case 3: log += "copy" + n; { P& r = *p[j]; *p[i] = r; } m[i] = m[j]; break;
            case 4: log += "move" + n; { P& r = *p[j]; *p[i] = std::move(r); } if (i != j) { m[i] = m[j]; m[j] = -1; } break;
            case 5: log += "swap" + n; p[i]->swap(*p[j]); std::swap(m[i], m[j]); break;
            case 6: log += "null" + n; *p[i] = P{nullptr}; m[i] = -1; break;
            case 7: log += "copyctor" + n; { auto c = std::make_unique<P>(*p[j]); int mj = m[j]; if (mj >= 0) PBT_EQ(c->useCount(), owners(mj) + 1, "useCount with a temporary owner after " << log); p[i] = std::move(c); m[i] = mj; } break;
            case 8: log += "movector" + n; if (i != j) { p[i] = std::make_unique<P>(std::move(*p[j])); m[i] = m[j]; m[j] = -1; } break;
            case 9: { log += "fail" + n; tr::fuse() = 0; bool t = false; try { *p[i] = makeCoSharedPtr<Obj<0>>(x); } catch (tr::Boom&) { t = true; } tr::fuse() = -1; PBT_CHECK(t, "a failing construction lets its exception out"); break; }
            }
            std::set<int> ids;
            for (int q = 0; q < 5; ++q) {
                PBT_EQ((bool)*p[q], m[q] >= 0, "pointer " << q << " after " << log); PBT_EQ(p[q]->useCount(), m[q] < 0 ? 0 : owners(m[q]), "useCount of " << q << " after " << log);
                if (m[q] >= 0) { ids.insert(m[q]); PBT_CHECK(p[q]->get() == addr[m[q]], "pointer " << q << " reaches another object after " << log); PBT_EQ((*p[q])->v, val[m[q]], "value after " << log); PBT_EQ((**p[q]).v, val[m[q]], "value"); if (owners(m[q]) > 1) shared = true; }
                else PBT_CHECK(p[q]->get() == nullptr, "get of an empty pointer");
                for (int r = 0; r < 5; ++r) PBT_EQ(*p[q] == *p[r], m[q] == m[r], "equality after " << log); }
            tr::verify(ids.size(), "after " + log);
        }
    }
    g.describe(log); g.nontrivial(ops > 3 && shared);
    tr::verify(0, "after all owners are gone: " + log);
}
static void chains(Gen& g) {        // owners inside owned objects
    tr::reset(); std::size_t n = 1 + g.size(20); std::string log;
    {
        std::vector<NP> ps; std::vector<std::vector<std::size_t>> links; std::vector<long> nextOf;
        for (std::size_t i = 0; i < n; ++i) { bool link = !ps.empty() && g.chance(3, 4); std::size_t t = link ? g.draw(ps.size()) : 0; ps.push_back(makeCoSharedPtr<Node>((int)i, link ? ps[t] : NP{})); nextOf.push_back(link ? (long)t : -1); log += link ? std::to_string(t) + "," : "-,"; }
        std::vector<char> held(n, 1); std::size_t drops = g.draw(n + 1);
        for (std::size_t d = 0; d < drops; ++d) { std::size_t i = g.draw(n); ps[i] = NP{}; held[i] = 0; log += " drop" + std::to_string(i);
            std::vector<char> alive(n, 0); for (std::size_t q = 0; q < n; ++q) if (held[q]) for (long w = (long)q; w >= 0 && !alive[(std::size_t)w]; w = nextOf[(std::size_t)w]) alive[(std::size_t)w] = 1;
            std::size_t cnt = 0; for (char a : alive) cnt += a; tr::verify(cnt, "chain after" + log);
            for (std::size_t q = 0; q < n; ++q) if (held[q]) { std::size_t uc = 1; for (std::size_t w = 0; w < n; ++w) if (alive[w] && nextOf[w] == (long)q) ++uc; PBT_EQ(ps[q].useCount(), uc, "useCount in a chain after" << log); } }
    }
    g.describe("chain " + log); g.nontrivial(n > 2);
    tr::verify(0, "after the chain is gone");
}
// pointers at any depth assigned, moved and swapped with one another (never closing a cycle): the assigned pointer may be the one that keeps its source alive
struct GNode; using GP = CoSharedPtr<GNode>; struct GNode { Obj<0> o; GP a, b; GNode(int x) : o(x) {} };
static void graphs(Gen& g) {
    tr::reset(); std::string log; int ops = 1 + (int)g.size(30); bool inner = false;
    {
        constexpr int R = 4; std::vector<GP> root(R); std::vector<int> mroot(R, -1); std::vector<std::array<int, 2>> kid; std::vector<GNode const*> addr;
        struct Place { GP* p; int* m; int holder; std::string name; };
        auto place = [&]() { int r = (int)g.draw(R); Place x{&root[r], &mroot[r], -1, "r" + std::to_string(r)}; std::size_t depth = g.size(4); for (std::size_t d = 0; d < depth && *x.m >= 0; ++d) { int side = (int)g.draw(2), id = *x.m; x.p = side ? &(*x.p)->b : &(*x.p)->a; x.m = &kid[(std::size_t)id][side]; x.holder = id; x.name += side ? ".b" : ".a"; } return x; };
        auto reaches = [&](auto& self, int from, int to) -> bool { if (from < 0 || to < 0) return false; if (from == to) return true; return self(self, kid[(std::size_t)from][0], to) || self(self, kid[(std::size_t)from][1], to); };
        for (int k = 0; k < ops; ++k) {
            auto dst = place(), src = place(); int d = *dst.m, s = *src.m; if (src.holder >= 0 || dst.holder >= 0) inner = true;
            switch (g.draw(7)) {
            case 0: case 1: { int x = (int)g.draw(100); log += " " + dst.name + "=new"; GP n = makeCoSharedPtr<GNode>(x); addr.push_back(n.get()); kid.push_back({-1, -1}); int id = (int)kid.size() - 1; // (kid may have moved: find the slot again)
                if (dst.holder >= 0) { bool b = dst.p == &addr[(std::size_t)dst.holder]->b; *dst.p = std::move(n); kid[(std::size_t)dst.holder][b] = id; } else { *dst.p = std::move(n); *dst.m = id; } break; }
            case 2: if (reaches(reaches, s, dst.holder)) break; log += " " + dst.name + "=" + src.name; *dst.p = *src.p; *dst.m = s; break;
            case 3: if (reaches(reaches, s, dst.holder)) break; log += " " + dst.name + "=move " + src.name; *dst.p = std::move(*src.p); if (dst.m != src.m) { *src.m = -1; *dst.m = s; } break;
            case 4: if (reaches(reaches, s, dst.holder) || reaches(reaches, d, src.holder)) break; { *dst.m = s; *src.m = d; bool cyc = false; for (std::size_t i = 0; i < kid.size(); ++i) for (int c : kid[i]) if (reaches(reaches, c, (int)i)) cyc = true; if (cyc) { *dst.m = d; *src.m = s; break; } } log += " swap " + dst.name + " " + src.name; dst.p->swap(*src.p); break;
            case 5: log += " " + dst.name + "=null"; *dst.p = GP{}; *dst.m = -1; break;
            case 6: { log += " copy " + src.name + " then " + dst.name + "=null"; GP c = *src.p; *dst.p = GP{nullptr}; *dst.m = -1; PBT_CHECK(c.get() == (s < 0 ? nullptr : addr[(std::size_t)s]), "a copy reaches another object after" << log); break; }
            }
            std::vector<std::size_t> cnt(kid.size()); std::vector<char> seen(kid.size()); std::size_t alive = 0;
            auto walk = [&](auto& self, GP const& p, int m) -> void {
                PBT_EQ((bool)p, m >= 0, "pointer after" << log); if (m < 0) return; ++cnt[(std::size_t)m]; PBT_CHECK(p.get() == addr[(std::size_t)m], "a pointer reaches another object after" << log); if (seen[(std::size_t)m]) return; seen[(std::size_t)m] = 1; ++alive; self(self, p->a, kid[(std::size_t)m][0]); self(self, p->b, kid[(std::size_t)m][1]); };
            for (int r = 0; r < R; ++r) walk(walk, root[r], mroot[r]);
            auto uses = [&](auto& self, GP const& p, int m) -> void { if (m < 0) return; PBT_EQ(p.useCount(), cnt[(std::size_t)m], "useCount after" << log); if (seen[(std::size_t)m] == 2) return; seen[(std::size_t)m] = 2; self(self, p->a, kid[(std::size_t)m][0]); self(self, p->b, kid[(std::size_t)m][1]); };
            for (int r = 0; r < R; ++r) uses(uses, root[r], mroot[r]);
            tr::verify(alive, "after" + log);
        }
    }
    g.describe(log); g.nontrivial(ops > 3 && inner); tr::verify(0, "after all roots are gone:" + log);
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "K03", .rule = "sequences of up to 24 operations over five pointers, and chains and acyclic graphs of pointers held inside owned objects; non-trivial: an object was shared or an inner pointer was assigned"},
        {{"pointers", pointers, 80000, 4000000}, {"chains", chains, 40000, 1000000}, {"graphs", graphs, 60000, 2000000}});
}

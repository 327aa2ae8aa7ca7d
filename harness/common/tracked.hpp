#pragma once
#include <common/pbt.hpp>
#include <set>
// objects that account for every construction and destruction of themselves
namespace tr {
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
inline std::set<void const*>& live() { static std::set<void const*> s; return s; }
inline long& fuse() { static long f = -1; return f; }          // counts throwing-capable constructions down; 0 throws
inline std::string& bad() { static std::string s; return s; }
inline void reset() { live().clear(); fuse() = -1; bad().clear(); }
inline void born(void const* p) { if (!live().insert(p).second && bad().empty()) bad() = "an object was constructed over a live one"; }
inline void died(void const* p) { if (!live().erase(p) && bad().empty()) bad() = "an object was destroyed twice or without having been constructed"; }
inline void check(void const* p) { if (!live().count(p) && bad().empty()) bad() = "an object was used while not alive"; }
template <int K> struct Obj {
    int v;
    explicit Obj(int x = 0) : v((burn(), x)) { born(this); }
    Obj(Obj const& o) : v((burn(), o.v)) { check(&o); born(this); }
    Obj(Obj&& o) noexcept : v(o.v) { check(&o); o.v = -1; born(this); }
    Obj& operator=(Obj const& o) { check(this); check(&o); v = o.v; return *this; }
    Obj& operator=(Obj&& o) noexcept { check(this); check(&o); int x = o.v; o.v = -1; v = x; return *this; }
    ~Obj() { died(this); v = -2; }
    bool operator==(Obj const& o) const { return v == o.v; }
    static void burn() { if (fuse() >= 0 && fuse()-- == 0) throw Boom{}; }
};
inline void verify(std::size_t expectLive, std::string const& where) {
    PBT_CHECK(bad().empty(), bad() << " (" << where << ")");
    PBT_EQ(live().size(), expectLive, "live objects " << where);
}
} // namespace tr

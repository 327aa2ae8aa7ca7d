// technique: property-based testing: generated message sequences sent by either role, decoded by an independent frame reader, received by the other role in generated fragmentations, and live two-way conversations
// opt: -O1
#include <common/ws.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s);
using Srv = WebSocketServer<HttpIO>; using Cli = WebSocketClient<HttpIO>;
struct Rec { int a{}; std::string s{}; std::vector<int> v{}; bool operator==(Rec const&) const = default; };
enum class How { Text, Bytes, Json, View, Ping, Pong };
struct Item { How how; std::string data; Rec rec; int op() const { return how == How::Bytes || (how == How::View && !data.empty() && data[0] == 'b') ? 2 : how == How::Ping ? 9 : how == How::Pong ? 10 : 1; } };
static std::string show(Item const& i) { return std::string(i.how == How::Text ? "text" : i.how == How::Bytes ? "bytes" : i.how == How::Json ? "json" : i.how == How::View ? "view" : i.how == How::Ping ? "ping" : "pong") + "[" + std::to_string(i.data.size()) + "] "; }
static Item item(Gen& g, bool server, bool control) {
    Item i; switch (g.draw(control ? 6 : 4)) {
    case 0: i.how = How::Text; i.data = wsf::payload(g); break;
    case 1: i.how = How::Bytes; i.data = wsf::payload(g); break;
    case 2: i.how = How::Json; i.rec.a = (int)g.draw(0); i.rec.s = g.strUpTo("ab\"\\\n\t", 30); for (std::size_t k = 0, n = g.size(g.chance(5, 100) ? 30000 : 30); k < n; ++k) i.rec.v.push_back((int)g.draw(1000)); reflection::toJson(i.rec, i.data); break;
    case 3: i.how = server ? How::View : How::Text; i.data = wsf::payload(g); break;
    case 4: i.how = How::Ping; i.data = g.blob(g.sizeNear({0, 125}, 125)); break;
    default: i.how = How::Pong; i.data = g.blob(g.draw(126)); break;
    }
    return i;
}
template <typename W> coroutine::Task<> sendOne(W& ws, Item const& i) {
    switch (i.how) {
    case How::Text: co_await ws.sendText(i.data); break;
    case How::Bytes: co_await ws.sendBytes(i.data); break;
    case How::Json: co_await ws.sendJson(i.rec); break;
    case How::View: if constexpr (std::is_same_v<W, Srv>) { auto v = makePacketView(i.op() == 2 ? OpCode::Binary : OpCode::Text, i.data); co_await ws.sendPacketView(v); } break;
    case How::Ping: co_await ws.ping(i.data); break;
    case How::Pong: co_await ws.send(OpCode::Pong, i.data); break;
    }
}
template <typename W> coroutine::Task<> recvOne(W& ws, Item const& i, int api) {
    if (i.op() == 9) co_return;                                     // answered while the next message is read
    if (api == 0) { auto p = co_await ws.template recv<true, Long>(OpCode::Text, OpCode::Binary); PBT_EQ((int)p.opCode, i.op(), "type of the message received"); PBT_CHECK(p.content == i.data, "received " << quote(p.content, 80) << " (" << p.content.size() << " bytes) but sent were " << quote(i.data, 80) << " (" << i.data.size() << " bytes)"); }
    else if (i.how == How::Json) { Rec r; if (api == 1) r = co_await ws.template recvJson<Rec>(); else co_await ws.recvJson(r); PBT_CHECK(r == i.rec, "the object received differs"); }
    else { auto s = i.op() == 2 ? co_await ws.recvBytes() : co_await ws.recvText(); PBT_CHECK(s == i.data, "received " << quote(s, 80) << " (" << s.size() << " bytes) but sent were " << quote(i.data, 80) << " (" << i.data.size() << " bytes)"); }
}
// leftover bytes are handed over reversed
static std::vector<char> rev(std::string_view s) { return {s.rbegin(), s.rend()}; }
template <typename Tx, typename Rx> void oneWay(Gen& g, bool server) {
    std::vector<Item> items; std::string desc = server ? "server sends " : "client sends "; std::size_t n = 1 + g.size(6); for (std::size_t i = 0; i < n; ++i) { items.push_back(item(g, server, g.chance(20, 100))); if (i + 1 == n && (items.back().op() > 2)) items.back() = Item{How::Text, "end", {}}; desc += show(items.back()); }
    std::string wire;
    {   bool slow = g.chance(20, 100); nt::Duplex d(slow ? 4096 : 0); d.collect(slow ? 700 : 65536); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; Tx ws{io, {}, (std::size_t)g.draw(0)};
        auto run = [&]() -> coroutine::Task<> { for (auto& i : items) co_await sendOne(ws, i); }; loop.sync(run()); d.closeLib(); wire = d.received(); }
    std::size_t p = 0; for (auto& i : items) {
        auto f = wsf::decode(wire, p); PBT_CHECK(f, "the frame of " << show(i) << "is incomplete on the wire"); PBT_CHECK(f->f.fin && f->f.rsv == 0, "FIN and reserved bits of " << wsf::show(f->f)); PBT_EQ(f->f.op, i.op(), "opcode of " << show(i)); PBT_EQ(f->f.masked, !server, "masking of " << show(i)); PBT_CHECK(f->shortest, "the length of " << show(i) << "is not in its shortest form"); PBT_CHECK(f->f.data == i.data, "payload of " << show(i) << "is " << quote(f->f.data, 80)); }
    PBT_EQ(p, wire.size(), "bytes after the last frame");
    std::size_t left = g.chance(30, 100) ? g.draw(std::min<std::size_t>(wire.size(), 400) + 1) : 0; auto frags = nt::split(g, std::string_view(wire).substr(left), wsf::heads(std::string_view(wire).substr(left)));
    g.describe(desc + std::to_string(frags.size()) + " pieces, " + std::to_string(left) + " left over"); g.nontrivial(n > 1 && frags.size() > 1); bool big = false; for (auto& i : items) big |= i.data.size() > 65535; g.label(big ? "64-bit lengths" : "shorter lengths");
    nt::Duplex d; d.feed(frags, nt::End::Open); d.collect(); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; Rx ws{io, rev(std::string_view(wire).substr(0, left)), 7};
    std::vector<int> apis; for (std::size_t i = 0; i < n; ++i) apis.push_back((int)g.draw(3));
    auto run = [&]() -> coroutine::Task<> { for (std::size_t i = 0; i < items.size(); ++i) if (items[i].op() <= 2) co_await recvOne(ws, items[i], apis[i]); }; loop.sync(run());
    d.closeLib(); auto replies = d.received(); p = 0; for (auto& i : items) if (i.op() == 9) { auto f = wsf::decode(replies, p); PBT_CHECK(f && f->f.op == 10 && f->f.data == i.data, "ping " << quote(i.data) << " was not answered by its pong"); } PBT_EQ(p, replies.size(), "bytes sent by the receiving side beyond the pongs");
}
static void sends(Gen& g) { if (g.boolean()) oneWay<Srv, Cli>(g, true); else oneWay<Cli, Srv>(g, false); }
// both ends of one connection: each sends its messages and receives those of the other, in a generated interleaving
template <typename W> coroutine::Task<> talk(W& ws, std::vector<Item> const& mine, std::vector<Item> const& theirs, std::vector<char> const& plan) {
    std::size_t i = 0, j = 0; for (char c : plan) { if (c) co_await sendOne(ws, mine[i++]); else { while (j < theirs.size() && theirs[j].op() > 2) ++j; if (j < theirs.size()) co_await recvOne(ws, theirs[j++], 0); } }
}
static void talks(Gen& g) {
    std::vector<Item> a, b; std::string desc = "server: "; std::size_t n = g.size(6), m = g.size(6); for (std::size_t i = 0; i < n; ++i) { a.push_back(item(g, true, true)); desc += show(a.back()); } desc += "client: "; for (std::size_t i = 0; i < m; ++i) { b.push_back(item(g, false, true)); desc += show(b.back()); }
    auto plan = [&](std::size_t s, std::size_t r) { std::vector<char> p; while (s || r) { bool x = r == 0 || (s && g.boolean()); p.push_back(x); --(x ? s : r); } return p; };
    // the sends of one side never wait for the other side: the sockets hold everything
    auto pa = plan(n, m), pb = plan(m, n); { std::stable_sort(pb.begin(), pb.end(), [](char x, char y) { return x > y; }); }
    g.describe(desc); g.nontrivial(n > 0 && m > 0);
    int s[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) _exit(98); for (int f : s) { int big = 1 << 22; ::setsockopt(f, SOL_SOCKET, SO_SNDBUF, &big, sizeof big); }
    std::string err; std::exception_ptr ep;
    std::thread t([&] { try { coroutine::EventLoop loop; HttpIO io{s[1], loop}; Cli ws{io, {}, 3}; loop.sync(talk(ws, b, a, pb)); } catch (...) { ep = std::current_exception(); } ::shutdown(s[1], SHUT_WR); });
    std::exception_ptr es; try { coroutine::EventLoop loop; HttpIO io{s[0], loop}; Srv ws{io, {}}; loop.sync(talk(ws, a, b, pa)); } catch (...) { es = std::current_exception(); } ::shutdown(s[0], SHUT_WR);
    t.join(); ::close(s[0]); ::close(s[1]); if (es) std::rethrow_exception(es); if (ep) std::rethrow_exception(ep);
}
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "N12", .rule = "several messages split into several pieces; messages in both directions",
        .assumptions = {"AF_UNIX socket pairs stand for the network; fragment boundaries are forced with SCM_RIGHTS messages", "plain-text connections (the TLS transport is N21)"}, .quickCapS = 60},
        {{"sends", sends, 60000, 1500000, 20}, {"talks", talks, 30000, 800000, 20}});
}

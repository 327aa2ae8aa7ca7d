// technique: property-based testing: frame sequences of a peer (fragmented messages with interleaved control frames, protocol violations, cuts) from an independent encoder, against a model of RFC 6455 reception
// opt: -O1
#include <common/ws.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using wsf::Frame;
struct Want { std::vector<std::pair<int, std::string>> msgs; std::vector<std::pair<int, std::string>> replies; };
template <typename W> void run(Gen& g, bool server) {
    std::string wire, desc = server ? "to the server: " : "to the client: "; Want want; std::vector<std::size_t> marks; bool bad = false; std::string why; std::size_t interleaved = 0, fragmented = 0;
    auto put = [&](Frame f, std::optional<std::uint64_t> lie = {}, bool form64 = false) { f.masked ^= server; f.key = wsf::key(g); marks.push_back(wire.size()); wire += wsf::encode(f, lie, form64); marks.push_back(wire.size()); desc += wsf::show(f) + " "; };
    auto control = [&] { Frame f; f.op = g.boolean() ? 9 : 10; f.data = g.blob(g.chance(30, 100) ? 125 - g.draw(2) : g.draw(20)); put(f); if (f.op == 9) want.replies.push_back({10, f.data}); };
    auto fragment = [&]() { switch (g.draw(4)) { case 0: return std::string(); case 1: return g.blob(g.draw(20)); case 2: return g.blob(g.sizeNear({125, 126}, 300)); default: return g.chance(10, 100) ? std::string(g.sizeNear({65535, 65536, 131072}, 140000), 'z') + g.blob(3) : g.blob(g.draw(600)); } };
    std::size_t n = g.size(7); bool open = false;
    for (std::size_t i = 0; i < n; ++i) {
        if (g.chance(25, 100)) { control(); continue; }
        std::size_t k = g.chance(45, 100) ? 1 : 2 + g.size(5); int op = 1 + (int)g.draw(2); std::string whole; if (k > 1) ++fragmented;
        for (std::size_t j = 0; j < k; ++j) { Frame f; f.op = j ? 0 : op; f.fin = j + 1 == k; f.data = fragment(); whole += f.data; put(f); if (!f.fin) while (g.chance(30, 100)) { control(); ++interleaved; } }
        want.msgs.push_back({op, whole});
    }
    // the end: a close frame, a violation, a cut, or the peer just closes
    int end = (int)g.draw(10); std::size_t good = wire.size(); nt::End how = nt::End::HalfClose;
    auto maybeOpen = [&] { if (g.chance(40, 100)) { Frame f; f.op = 1 + (int)g.draw(2); f.fin = false; f.data = fragment(); put(f); open = true; if (g.boolean()) control(); } };
    if (end < 3) { maybeOpen(); Frame f; f.op = 8; if (g.boolean()) { f.data = "\x03\xe8"; f.data += g.blob(g.draw(124)); } put(f); want.replies.push_back({8, f.data}); why = "close"; if (g.boolean()) { Frame x; x.data = "after close"; put(x); } how = g.boolean() ? nt::End::Open : nt::End::HalfClose; }
    else if (end < 7) {
        bad = true; Frame f; f.data = g.blob(g.draw(30)); int v = (int)g.draw(9); if (v != 4 && v != 5) maybeOpen();
        switch (v) {
        case 0: f.op = g.oneof<int>({1, 2, 8, 9, 10}); if (open && f.op < 8) f.op = 0; f.masked = true; why = "wrong masking"; break;        // toggled by put
        case 1: f.op = g.oneof<int>({1, 2, 8, 9, 10}); if (open && f.op < 8) f.op = 0; f.rsv = 1 + (int)g.draw(7); why = "reserved bits"; break;
        case 2: f.op = g.oneof<int>({3, 4, 5, 6, 7, 11, 12, 13, 14, 15}); f.fin = g.chance(80, 100); why = "reserved opcode"; break;
        case 3: f.op = 8 + (int)g.draw(3); f.fin = false; why = "fragmented control frame"; break;
        case 4: f.op = 0; f.fin = g.boolean(); why = "stray continuation"; break;
        case 5: { Frame h; h.op = 1 + (int)g.draw(2); h.fin = false; h.data = fragment(); put(h); if (g.boolean()) control(); if (g.boolean()) { Frame c; c.op = 0; c.fin = false; c.data = fragment(); put(c); } f.op = 1 + (int)g.draw(2); f.fin = g.boolean(); why = "new message inside a fragmented one"; break; }
        case 6: f.op = 8 + (int)g.draw(3); f.data = g.blob(g.sizeNear({126, 127}, 400) | 126); why = "oversized control frame"; break;
        case 7: f.op = open ? 0 : 1; why = "length with the top bit set"; break;
        default: f.op = 8 + (int)g.draw(3); f.data = g.blob(g.draw(20)); why = "control frame with a long length form"; break;
        }
        if (v == 7) put(f, (std::uint64_t)1 << 63 | g.draw(1000)); else if (v == 8) put(f, f.data.size(), true); else put(f);
        if (g.boolean()) { Frame x; x.op = 1; x.data = "after the violation"; put(x); }
        how = v == 7 || v == 8 || g.boolean() ? nt::End::HalfClose : nt::End::Open; if (how == nt::End::Open) { Frame x; x.op = 1; x.data = std::string(400, 'p'); put(x); }   // whatever is misread, bytes are there
        if (how == nt::End::Open) how = nt::End::HalfClose;
    }
    else if (end < 9) { maybeOpen(); Frame f; f.op = open ? 0 : 1 + (int)g.draw(2); f.data = fragment(); std::size_t at = wire.size(); if (g.chance(15, 100)) put(f, ((std::uint64_t)1 << (20 + g.draw(43)))); else { put(f); std::size_t cut = at + g.draw(wire.size() - at); wire.resize(cut); } why = "cut"; }
    else { maybeOpen(); why = "closed without a close frame"; }
    auto frags = nt::split(g, wire, marks); std::size_t left = g.chance(20, 100) && !frags.empty() ? 1 : 0; std::vector<char> lo; if (left) { lo.assign(frags[0].rbegin(), frags[0].rend()); frags.erase(frags.begin()); }
    g.describe(desc + "| " + why + ", " + std::to_string(frags.size()) + " pieces, " + std::to_string(lo.size()) + " left over"); g.nontrivial(bad || interleaved || (fragmented && frags.size() > 1)); g.label(why); if (interleaved) g.label("control frames inside a fragmented message"); (void)good;
    nt::Duplex d; d.feed(frags, how); d.collect(); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; W ws{io, lo, 11};
    std::vector<std::pair<int, std::string>> got; std::string what;
    auto task = [&]() -> coroutine::Task<> { for (;;) { auto p = co_await ws.template recv<true, Long>(OpCode::Text, OpCode::Binary); got.push_back({(int)p.opCode, std::move(p.content)}); if (got.size() > want.msgs.size()) co_return; } };
    bool failed = false; try { loop.sync(task()); } catch (pbt::Failure&) { throw; } catch (std::exception const& e) { failed = true; what = e.what(); }
    for (std::size_t i = 0; i < got.size(); ++i) {
        PBT_CHECK(i < want.msgs.size(), "a message was delivered that was never completely and correctly sent: op " << got[i].first << " " << quote(got[i].second, 100) << " (" << got[i].second.size() << " bytes)");
        PBT_EQ(got[i].first, want.msgs[i].first, "type of message " << i); PBT_CHECK(got[i].second == want.msgs[i].second, "message " << i << " is " << quote(got[i].second, 100) << " (" << got[i].second.size() << " bytes) but " << quote(want.msgs[i].second, 100) << " (" << want.msgs[i].second.size() << " bytes) was sent"); }
    PBT_CHECK(got.size() == want.msgs.size(), "only " << got.size() << " of " << want.msgs.size() << " messages were delivered, then: " << what); PBT_CHECK(failed, "the end (" << why << ") was not reported");
    d.closeLib(); auto const& out = d.received(); std::size_t p = 0, i = 0;
    for (; p < out.size(); ++i) { auto f = wsf::decode(out, p); PBT_CHECK(f, "an incomplete frame was sent: " << quote(out.substr(p), 80)); PBT_CHECK(i < want.replies.size(), "an unexpected frame was sent: " << wsf::show(f->f)); PBT_EQ(f->f.op, want.replies[i].first, "opcode of reply " << i); PBT_CHECK(f->f.data == want.replies[i].second, "reply " << i << " carries " << quote(f->f.data) << " instead of " << quote(want.replies[i].second)); PBT_EQ(f->f.masked, !server, "masking of reply " << i); PBT_CHECK(f->f.fin && !f->f.rsv, "FIN and reserved bits of reply " << i); }
    PBT_CHECK(i == want.replies.size(), "only " << i << " of " << want.replies.size() << " replies (pongs, close) were sent");
}
static void frames(Gen& g) { if (g.boolean()) run<WebSocketServer<HttpIO>>(g, true); else run<WebSocketClient<HttpIO>>(g, false); }
int main(int argc, char** argv) {
    return pbt::main(argc, argv, {.property = "N13", .rule = "a protocol violation, control frames inside a fragmented message, or a fragmented message in several pieces",
        .assumptions = {"text is not required to be valid UTF-8, non-minimal lengths of data frames are left open", "AF_UNIX socket pairs stand for the network"}, .quickCapS = 60},
        {{"frames", frames, 100000, 3000000, 25}});
}

// technique: property-based testing (stateful): generated histories of chat calls, plain and streamed, of one OpenAI client against a scripted peer on the loopback interface (fragmented, cut and closing answers, callbacks that fail or suspend), requests read by an independent HTTP and JSON reader and chunks compared with the values they were spelled from
// opt: -O1
// note: the stream is not sent with chunked coding, chunks have no members the library's types do not name
#include <common/net.hpp>
#include <common/json_ref.hpp>
#include <HXLibs/ai/openai.hpp>
#include <netinet/tcp.h>
#include <netinet/in.h>
using namespace HX; using namespace HX::net; using pbt::Gen; using pbt::quote; using jref::Node; using namespace std::string_literals;
namespace oa = HX::ai::openai; using Chunk = oa::ChatCompletionChunk;
static std::string text(Gen& g, std::size_t max = 60) { std::string s; std::size_t n = g.chance(2, 100) ? g.sizeNear({8192, 16384, 16300}, 40000) : g.size(max); static std::string const w[] = {"a", "b", " ", "hi", "\"", "\\", "\n", "\t", "\r\n", "é", "你好", "😀", "\x01", "/", "{}", "[DONE]", "data: ", ":", "\x7f", "\xef\xbf\xbf"}; while (s.size() < n) s += w[g.draw(std::size(w))]; return s; }
template <class T, class F> static std::optional<T> maybe(Gen& g, F f, int pct = 30) { if (g.chance(pct, 100)) return f(); return std::nullopt; }
// ---- requests and the documents that denote them
static oa::ChatCompletionRequest request(Gen& g) {
    oa::ChatCompletionRequest r; r.model = text(g, 20); std::size_t n = g.size(4);
    for (std::size_t i = 0; i < n; ++i) {
        oa::Message m; m.role = g.oneof<std::string>({oa::role::System, oa::role::User, oa::role::Assistant, oa::role::Tool});
        if (g.boolean()) m.content = text(g); else { std::vector<oa::Message::ContentPart> p; for (std::size_t k = 0, c = g.size(3); k < c; ++k) { if (g.boolean()) p.push_back(oa::Message::ContentPartText{.text = text(g)}); else p.push_back(oa::Message::ContentPartImage{.image_url = {.url = text(g), .detail = g.oneof<std::string>({"auto", "low", "high"})}}); } m.content = p; }
        m.name = maybe<std::string>(g, [&] { return text(g, 10); }, 15); m.tool_call_id = maybe<std::string>(g, [&] { return text(g, 10); }, 15);
        m.tool_calls = maybe<std::vector<oa::Message::ToolCall>>(g, [&] { std::vector<oa::Message::ToolCall> v; for (std::size_t k = 0, c = g.size(3); k < c; ++k) v.push_back({.id = text(g, 8), .function = {.name = text(g, 8), .arguments = text(g)}}); return v; }, 20); r.messages.push_back(std::move(m));
    }
    auto dbl = [&] { return g.oneof<double>({0, 1, 0.5, 0.1, -2, 1e-7, 0.7, 2}); }; r.temperature = maybe<double>(g, dbl); r.top_p = maybe<double>(g, dbl); r.frequency_penalty = maybe<double>(g, dbl); r.presence_penalty = maybe<double>(g, dbl); r.max_tokens = maybe<std::uint64_t>(g, [&] { return g.boolean() ? g.draw(0) : g.draw(5000); }); r.stream = g.boolean();
    r.tools = maybe<std::vector<oa::Tool>>(g, [&] { std::vector<oa::Tool> v; for (std::size_t k = 0, c = g.size(3); k < c; ++k) v.push_back({.function = {.name = text(g, 8), .description = text(g), .parameters = text(g)}}); return v; }); r.tool_choice = maybe<oa::ChatCompletionRequest::ToolChoice>(g, [&]() -> oa::ChatCompletionRequest::ToolChoice { if (g.boolean()) return std::string("auto"); return oa::ToolChoiceFunction{text(g, 8)}; }); r.response_format = maybe<oa::ResponseFormat>(g, [&] { return oa::ResponseFormat{.type = g.boolean() ? "text" : "json_object"}; }); return r;
}
struct O { Node n = Node::obj(); O& add(std::string k, Node v) { n.o.emplace_back(std::move(k), std::move(v)); return *this; } O& str(std::string k, std::string v) { return add(std::move(k), Node::str(std::move(v))); } };
template <class V, class F> static Node list(V const& v, F f) { Node a = Node::arr(); for (auto const& x : v) a.a.push_back(f(x)); return a; }
static Node doc(oa::ChatCompletionRequest const& r, bool stream) {
    O o; o.str("model", r.model); o.add("messages", list(r.messages, [](oa::Message const& m) {
        O x; x.str("role", m.role); if (auto* s = std::get_if<std::string>(&m.content)) x.str("content", *s); else x.add("content", list(std::get<1>(m.content), [](oa::Message::ContentPart const& p) { O y; if (auto* t = std::get_if<0>(&p)) { y.str("text", t->text).str("type", "text"); } else { auto& i = std::get<1>(p); y.add("image_url", O{}.str("url", i.image_url.url).str("detail", i.image_url.detail).n).str("type", "image_url"); } return y.n; }));
        if (m.name) x.str("name", *m.name); if (m.tool_call_id) x.str("tool_call_id", *m.tool_call_id); if (m.tool_calls) x.add("tool_calls", list(*m.tool_calls, [](oa::Message::ToolCall const& c) { return O{}.str("id", c.id).add("function", O{}.str("name", c.function.name).str("arguments", c.function.arguments).n).str("type", "function").n; })); return x.n; }));
    o.add("stream", Node::boolean(stream)); auto d = [&](char const* k, std::optional<double> v) { if (v) o.add(k, Node::dbl(*v, false)); }; d("temperature", r.temperature); d("top_p", r.top_p); d("frequency_penalty", r.frequency_penalty); d("presence_penalty", r.presence_penalty); if (r.max_tokens) o.add("max_tokens", Node::integer(std::to_string(*r.max_tokens)));
    if (r.tools) o.add("tools", list(*r.tools, [](oa::Tool const& t) { return O{}.add("function", O{}.str("name", t.function.name).str("description", t.function.description).str("parameters", t.function.parameters).n).str("type", "function").n; }));
    if (r.tool_choice) { if (auto* s = std::get_if<std::string>(&*r.tool_choice)) o.str("tool_choice", *s); else o.add("tool_choice", O{}.str("name", std::get<1>(*r.tool_choice).name).n); } if (r.response_format) o.add("response_format", O{}.str("type", r.response_format->type).n); return o.n;
}
static void dropNulls(Node& n) { std::erase_if(n.o, [](jref::Mem const& m) { return m.second.k == Node::Null; }); for (auto& m : n.o) dropNulls(m.second); for (auto& x : n.a) dropNulls(x); }
// ---- streamed chunks
static Chunk chunk(Gen& g) {
    Chunk c; c.id = text(g, 10); c.object = "chat.completion.chunk"; c.created = g.boolean() ? g.draw(0) : 1700000000; c.model = text(g, 10); std::size_t n = g.size(3);
    for (std::size_t i = 0; i < n; ++i) { Chunk::Choice h; h.index = g.draw(5); h.delta.role = maybe<std::string>(g, [] { return "assistant"s; }); h.delta.content = maybe<std::string>(g, [&] { return text(g); }, 70); h.finish_reason = maybe<std::string>(g, [] { return "stop"s; }, 20);
        h.delta.tool_calls = maybe<std::vector<Chunk::ToolCallDelta>>(g, [&] { std::vector<Chunk::ToolCallDelta> v; for (std::size_t k = 0, m = g.size(3); k < m; ++k) { Chunk::ToolCallDelta t; t.index = g.draw(4); t.id = maybe<std::string>(g, [&] { return text(g, 6); }); t.type = maybe<std::string>(g, [] { return "function"s; }); if (g.boolean()) { t.function.emplace(); t.function->name = maybe<std::string>(g, [&] { return text(g, 6); }); t.function->arguments = maybe<std::string>(g, [&] { return text(g); }); } v.push_back(t); } return v; }, 20); c.choices.push_back(h); } return c;
}
// absent members are spelled as null or left out
static Node doc(Chunk const& c, Gen* g) {
    auto opt = [&](O& o, char const* k, std::optional<std::string> const& v) { if (v) o.str(k, *v); else if (g && g->boolean()) o.add(k, Node::null()); };
    O o; o.str("id", c.id).str("object", c.object).add("created", Node::integer(std::to_string(c.created))).str("model", c.model);
    o.add("choices", list(c.choices, [&](Chunk::Choice const& h) { O d; opt(d, "role", h.delta.role); opt(d, "content", h.delta.content); if (h.delta.tool_calls) d.add("tool_calls", list(*h.delta.tool_calls, [&](Chunk::ToolCallDelta const& t) { O x; x.add("index", Node::integer(std::to_string(t.index))); opt(x, "id", t.id); opt(x, "type", t.type); if (t.function) { O f; opt(f, "name", t.function->name); opt(f, "arguments", t.function->arguments); x.add("function", f.n); } return x.n; })); O x; x.add("index", Node::integer(std::to_string(h.index))).add("delta", d.n); opt(x, "finish_reason", h.finish_reason); return x.n; })); return o.n;
}
static bool equal(Chunk const& a, Chunk const& b, std::string& why) { return jref::same(doc(a, nullptr), doc(b, nullptr), "chunk", why); }
// ---- the peer
struct Reply { std::vector<std::string> frags; bool close = false; };
struct Peer {
    int lst; std::uint16_t port; std::vector<Reply> script; std::vector<std::string> requests; std::atomic<bool> stop{false}; std::thread t;
    explicit Peer(std::vector<Reply> s) : script(std::move(s)) { lst = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t al = sizeof a; if (::bind(lst, (sockaddr*)&a, sizeof a) || ::listen(lst, 16) || ::getsockname(lst, (sockaddr*)&a, &al)) _exit(98); port = ntohs(a.sin_port); t = std::thread([this] { run(); }); }
    ~Peer() { end(); ::close(lst); }
    void end() { stop = true; if (t.joinable()) t.join(); }
    bool ready(int f) { while (!stop) { pollfd p{f, POLLIN, 0}; if (::poll(&p, 1, 20) > 0) return true; } return false; }
    void run() { while (ready(lst)) { int c = ::accept4(lst, nullptr, nullptr, SOCK_CLOEXEC); if (c < 0) continue; int one = 1; ::setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); talk(c); ::close(c); } }
    void talk(int c) {
        for (std::string in;;) {
            std::size_t h; for (;;) { h = in.find("\r\n\r\n"); if (h != in.npos) { auto l = nt::low(in.substr(0, h)); auto p = l.find("content-length:"); std::size_t n = p == l.npos ? 0 : std::stoull(l.substr(p + 15)); if (in.size() >= h + 4 + n) { requests.push_back(in.substr(0, h + 4 + n)); in.erase(0, h + 4 + n); break; } } char b[65536]; if (!ready(c)) return; auto n = ::recv(c, b, sizeof b, 0); if (n <= 0) return; in.append(b, (std::size_t)n); }
            if (requests.size() > script.size()) return; auto& r = script[requests.size() - 1]; for (auto& f : r.frags) { for (std::size_t o = 0; o < f.size();) { auto n = ::send(c, f.data() + o, f.size() - o, MSG_NOSIGNAL); if (n <= 0) return; o += (std::size_t)n; } if (r.frags.size() < 30) usleep(60); } if (r.close) return;
        }
    }
};
enum class How { Chat, Stream };
struct Call { How how; oa::ChatCompletionRequest req; std::string body; int status = 200; std::vector<Chunk> chunks; long failAt = -1; bool bad = false, suspend = false; bool ok = false; std::string error; ResponseData got; std::vector<Chunk> seen; };
static void calls(Gen& g) {
    std::size_t n = 1 + g.size(3); bool shared = g.boolean(); std::vector<Call> cs(n); std::vector<Reply> script; std::string d = shared ? "shared loop:" : "own loop:"; bool many = false;
    for (auto& c : cs) {
        c.how = shared || g.boolean() ? How::Stream : How::Chat; c.req = request(g); Reply r; std::string wire; std::vector<std::size_t> marks;
        if (c.how == How::Chat) { c.body = g.chance(80, 100) ? "{\"x\":\"" + text(g, 10) + "\"}" : g.blob(g.draw(40000)); c.status = g.chance(80, 100) ? 200 : (int)g.oneof<int>({401, 429, 500}); wire = "HTTP/1.1 " + std::to_string(c.status) + " X\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(c.body.size()) + "\r\n\r\n"; marks.push_back(wire.size()); wire += c.body; r.close = g.chance(15, 100); d += " chat " + std::to_string(c.status) + " " + std::to_string(c.body.size()) + "B" + (r.close ? " close" : ""); }
        else {
            std::size_t k = g.size(6); wire = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n" + std::string(g.boolean() ? "Cache-Control: no-cache\r\n" : "") + "\r\n"; bool stopHere = false; c.suspend = shared && g.chance(30, 100); if (g.chance(15, 100)) { c.failAt = (long)g.draw(k + 1); } std::size_t badAt = g.chance(10, 100) ? g.draw(k + 1) : ~0ull; bool done = g.chance(80, 100), cut = g.chance(10, 100);
            for (std::size_t i = 0; i <= k; ++i) {
                if (i == badAt) { wire += "data: " + g.oneof<std::string>({"{\"id\":", "[]x", "{\"id\":1}", "nonsense", "{\"choices\":[{\"index\":\"x\"}]}"}) + "\n\n"; c.bad = stopHere = true; } if (i == k) break; if (g.chance(10, 100)) wire += ": keep-alive\n\n"; if (g.chance(6, 100)) wire += "data: [DONE]\n\n";
                auto x = chunk(g); std::string t; jref::spell(doc(x, &g), g, t); for (auto& ch : t) if (ch == '\r') ch = ' '; std::string line; for (char ch : t) { line += ch; if (ch == '\n') line += "data: "; } wire += "data: " + line + "\n\n"; marks.push_back(wire.size()); marks.push_back(wire.size() - 1); if (!stopHere) c.chunks.push_back(x);
            }
            if (done) wire += "data: [DONE]\n\n"; if (cut) { wire += "data: {\"id\":\"cut"; } r.close = true; many |= c.chunks.size() > 1; d += " stream of " + std::to_string(c.chunks.size()) + (c.failAt >= 0 ? " failing at " + std::to_string(c.failAt) : "") + (c.bad ? " with a malformed chunk" : "") + (c.suspend ? " suspending" : ""); if (c.failAt >= 0 && (std::size_t)c.failAt < c.chunks.size()) c.chunks.resize((std::size_t)c.failAt + 1); else c.failAt = -1;
        }
        r.frags = nt::split(g, wire, marks, 60); script.push_back(std::move(r));
    }
    auto key = "sk-" + g.strUpTo("abcXYZ019-_", 30), base = g.oneof<std::string>({"", "/v1", "/a/b/v1"}); g.describe(d + " " + quote(cs[0].req.model, 30)); g.nontrivial(n > 1 || many); g.label(shared ? "shared" : "own");
    Peer peer(std::move(script)); auto port = peer.port;
    {
        nt::Quiet quiet; std::shared_ptr<coroutine::EventLoop> loop; if (shared) loop = std::make_shared<coroutine::EventLoop>(); coroutine::EventLoop mine;
        oa::OpenAiClient<HttpClient> cli({.baseUrl = "http://127.0.0.1:" + std::to_string(port) + base, .apiKey = key}, loop);
        for (auto& c : cs) {
            if (c.how == How::Chat) { auto t = cli.chat(c.req).get(); c.ok = t.isVal(); if (c.ok) c.got = t.move(); else c.error = t.what(); continue; }
            auto run = [&]() -> coroutine::Task<> { long i = 0; auto t = co_await cli.coChat(c.req, [&](Chunk k) -> coroutine::Task<> { c.seen.push_back(std::move(k)); if (c.suspend) co_await loop->makeTimer().yield(); if (i++ == c.failAt) throw std::runtime_error("the callback fails"); co_return; }); c.ok = t.isVal(); if (!c.ok) c.error = t.what(); };
            (shared ? *loop : mine).sync(run());
        }
    }
    peer.end(); PBT_EQ(peer.requests.size(), n, "requests the peer received");
    for (std::size_t i = 0; i < n; ++i) {
        auto& c = cs[i]; auto tag = "call " + std::to_string(i) + ": "; nt::Msg m; try { std::size_t p = 0; m = nt::readMsg(peer.requests[i], p, false); } catch (nt::Bad const& b) { PBT_FAIL(tag << b.why); }
        PBT_EQ(m.start, "POST " + base + "/chat/completions HTTP/1.1", tag << "request line"); PBT_EQ(m.head["authorization"], "Bearer " + key, tag << "Authorization"); PBT_CHECK(m.head["content-type"].starts_with("application/json"), tag << "Content-Type " << m.head["content-type"]); Node got; std::string why; PBT_CHECK(jref::parse(m.body, got, why), tag << "the body is no JSON: " << why); dropNulls(got); PBT_CHECK(jref::same(doc(c.req, c.how == How::Stream), got, "body", why), tag << why);
        if (c.how == How::Chat) { PBT_CHECK(c.ok, tag << "failed with '" << c.error << "'"); PBT_EQ(c.got.status, c.status, tag << "status"); PBT_CHECK(c.got.body == c.body, tag << "the answer differs"); continue; }
        PBT_CHECK(!c.ok, tag << "the end of the stream was not reported"); for (std::size_t k = 0; k < std::min(c.seen.size(), c.chunks.size()); ++k) PBT_CHECK(equal(c.chunks[k], c.seen[k], why), tag << "chunk " << k << ": " << why); PBT_EQ(c.seen.size(), c.chunks.size(), tag << "chunks delivered"); if (c.failAt >= 0) PBT_EQ(c.error, std::string("the callback fails"), tag << "outcome");
    }
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N23", .rule = "1 to 4 calls on one client with generated requests (messages of text and parts, tools, options) and answers (bodies with status, or streams of up to 6 chunks in any JSON spelling and fragmentation, with pings, malformed chunks, failing and suspending callbacks); non-trivial: several calls or several chunks", .assumptions = {"texts are valid UTF-8 without NUL"}},
        {{"calls", calls, 6000, 200000, 40, true}});
}

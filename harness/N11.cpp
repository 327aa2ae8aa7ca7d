// technique: property-based testing: generated files and Range fields answered over a socket, read back by an independent HTTP and multipart reader and compared with a model of RFC 9110 byte ranges
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
#include <fstream>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s); using u64 = std::uint64_t;

static std::string fileBytes(Gen& g) {
    std::size_t n = g.chance(75, 100) ? g.size(300) : g.sizeNear({131072, 131072 * 2, 131072 - 1, 16384}, g.chance(20, 100) ? 700000 : 140000);
    switch (g.draw(3)) { case 0: return g.blob(n); case 1: { std::string s; while (s.size() < n) s += g.oneof<std::string>({"\r\n", "\r\n--BOUNDARY_STRING\r\n", "--BOUNDARY_STRING--\r\n", "Content-Range: bytes 0-1/2\r\n\r\n", "a"}); s.resize(n); return s; } default: { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(i * 31 + i / 251); return s; } }
}
struct Range { u64 a, b; };
struct Spec { std::string text; std::vector<Range> ok; bool malformed = false, multi = false; };
static std::string ows(Gen& g) { return g.chance(15, 100) ? g.oneof<std::string>({" ", "\t", "  "}) : ""; }
static Spec makeSpec(Gen& g, u64 size) {
    Spec s; std::size_t n = g.chance(60, 100) ? 1 : 2 + g.size(4); s.multi = n > 1;
    auto num = [&](u64 lim) -> u64 { switch (g.draw(8)) { case 0: return 0; case 1: return lim; case 2: return lim ? lim - 1 : 0; case 3: return lim + 1; case 4: return g.draw(lim + 3) + (g.chance(5, 100) ? 1000000 : 0); default: return lim ? g.draw(lim) : g.draw(3); } };
    auto text = [&](u64 v) { return std::string(g.chance(5, 100) ? 1 + g.draw(22) : 0, '0') + std::to_string(v); };
    s.text = g.chance(92, 100) ? "bytes=" : g.oneof<std::string>({"Bytes=", "BYTES="});
    for (std::size_t i = 0; i < n; ++i) {
        if (i) s.text += ows(g) + "," + ows(g);
        switch (g.draw(4)) {
        case 0: { u64 a = num(size); s.text += text(a) + "-"; if (a < size) s.ok.push_back({a, size - 1}); break; }
        case 1: { u64 k = num(size); s.text += "-" + text(k); if (k && size) s.ok.push_back({k >= size ? 0 : size - k, size - 1}); break; }
        default: { u64 a = num(size), b = num(size); if (b < a) std::swap(a, b); bool huge = g.chance(4, 100); s.text += text(a) + "-" + (huge ? g.oneof<std::string>({"18446744073709551615", "18446744073709551616", "99999999999999999999999", "9223372036854775808"}) : text(b)); if (a < size) s.ok.push_back({a, huge ? size - 1 : std::min(b, size - 1)}); break; }
        }
    }
    if (g.chance(12, 100)) {   // one defect
        s.malformed = true; auto eq = s.text.find('=');
        switch (g.draw(9)) {
        case 0: s.text = s.text.substr(0, eq + 1); break;
        case 1: s.text += ",-"; break;
        case 2: s.text += "," + std::to_string(size + 1) + "-" + std::to_string(size); if (size == ~0ull) break; break;      // last before first
        case 3: s.text += g.oneof<std::string>({",x-1", ",1-x", ",1-2-3", ",0x1-2", ",1 2", ",5", ",--1", ",+1-2", ",1-+2", ",1.0-2", ",1- 2"}); break;
        case 4: s.text = s.text.substr(0, eq) + s.text.substr(eq + 1); break;
        case 5: s.text = g.oneof<std::string>({"", "b", "bytes", "byte=0-1", "bytes:0-1", "=0-1", "0-1", "bytes", "bytesx=0-1"}); break;
        case 6: s.text.insert(eq + 1, g.oneof<std::string>({"a", "?", "-x", ";"})); break;
        case 7: s.text += g.oneof<std::string>({"x", ";", "-", "\x80"}); break;
        case 8: s.text = "bytes=" + std::to_string(1 + g.draw(50)) + "-" + "0"; break;
        }
    }
    return s;
}
static std::vector<std::string> parts(std::string const& body, std::string const& boundary, std::vector<std::map<std::string, std::string>>& heads) {
    std::vector<std::string> r; auto delim = "--" + boundary; if (body.substr(0, delim.size()) != delim) throw nt::Bad{"no opening boundary"};
    std::size_t pos = delim.size();
    for (;;) {
        if (body.substr(pos, 2) == "--") { auto rest = body.substr(pos + 2); if (!rest.empty() && rest != "\r\n") throw nt::Bad{"bytes after the closing boundary: " + quote(rest, 80)}; return r; }
        if (body.substr(pos, 2) != "\r\n") throw nt::Bad{"boundary line " + quote(body.substr(pos, 40))};
        pos += 2; std::map<std::string, std::string> h;
        for (;;) { auto e = body.find("\r\n", pos); if (e == body.npos) throw nt::Bad{"part head cut short"}; auto l = body.substr(pos, e - pos); pos = e + 2; if (l.empty()) break; auto c = l.find(':'); if (c == l.npos) throw nt::Bad{"part field " + quote(l, 80)}; auto v = l.substr(c + 1); v.erase(0, std::min(v.find_first_not_of(" \t"), v.size())); h[nt::low(l.substr(0, c))] = v; }
        auto e = body.find("\r\n" + delim, pos); if (e == body.npos) throw nt::Bad{"part not followed by a boundary"}; r.push_back(body.substr(pos, e - pos)); heads.push_back(h); pos = e + 2 + delim.size();
    }
}
static void ranges(Gen& g) {
    std::size_t n = g.chance(70, 100) ? 1 : 2 + g.draw(3); auto bytes = fileBytes(g); u64 size = bytes.size(); auto path = pbt::scratch() + "/range" + g.oneof<std::string>({".png", "", ".TXT"}); { std::ofstream f(path, std::ios::binary | std::ios::trunc); f << bytes; }
    struct One { std::string method; std::optional<Spec> spec; }; std::vector<One> os; std::string wire, desc; bool inter = false;
    for (std::size_t i = 0; i < n; ++i) { One o; o.method = g.chance(85, 100) ? "GET" : "HEAD"; if (g.chance(85, 100)) { o.spec = makeSpec(g, size); inter |= !o.spec->ok.empty(); } wire += o.method + " /f HTTP/1.1\r\n" + (o.spec ? g.oneof<std::string>({"Range: ", "range:"}) + o.spec->text + "\r\n" : "") + "\r\n"; desc += o.method + " " + (o.spec ? quote(o.spec->text) : "whole") + "; "; os.push_back(std::move(o)); }
    g.describe("file of " + std::to_string(size) + " bytes: " + desc); g.nontrivial(inter); g.label(!os[0].spec ? "whole" : os[0].spec->malformed ? "malformed" : os[0].spec->ok.empty() ? "unsatisfiable" : os[0].spec->multi ? "several" : "single");
    nt::Duplex d; if (size > 50000) d.collect(); d.feed({wire}, nt::End::HalfClose); coroutine::EventLoop loop; HttpIO io{d.lib, loop}; HttpRequest<HttpIO> req{io}; HttpResponse<HttpIO> res{io};
    for (auto& o : os) { (void)o; PBT_CHECK(loop.sync(req.parserReqHead<Long>()), "head"); loop.sync(res.useRangeTransferFile(req.getRangeRequestView(), path)); loop.sync(req.clear()); res.clear(); }
    auto w = d.received(); std::size_t pos = 0; auto type = path.ends_with(".png") ? std::string("image/png") : path.ends_with(".TXT") ? std::string("text/plain") : std::string("application/octet-stream");
    try {
        for (auto& o : os) {
            auto m = nt::readMsg(w, pos, true, o.method == "HEAD"); auto status = m.start.substr(0, 12); auto cr = [&](Range r) { return "bytes " + std::to_string(r.a) + "-" + std::to_string(r.b) + "/" + std::to_string(size); };
            auto what = o.method + " " + (o.spec ? quote(o.spec->text) : std::string("whole")) + " of " + std::to_string(size) + " bytes";
            if (o.method == "HEAD") { PBT_EQ(status, std::string("HTTP/1.1 200"), what); PBT_EQ(m.head["content-length"], std::to_string(size), what); PBT_EQ(m.head["content-type"], type, what); continue; }
            if (!o.spec) { PBT_EQ(status, std::string("HTTP/1.1 200"), what); PBT_CHECK(m.head.count("content-length"), what << ": no Content-Length"); PBT_CHECK(m.body == bytes, what << ": body of " << m.body.size() << " bytes"); PBT_EQ(m.head["content-type"], type, what); continue; }
            PBT_CHECK(m.head.count("content-length"), what << ": the response has no Content-Length: " << quote(w, 300));
            if (o.spec->malformed || o.spec->ok.empty()) { PBT_EQ(status, std::string("HTTP/1.1 416"), what); PBT_EQ(m.body, std::string(), what); continue; }
            PBT_EQ(status, std::string("HTTP/1.1 206"), what); auto const& ok = o.spec->ok; auto ct = m.head["content-type"];
            if (ct.starts_with("multipart/byteranges")) {
                PBT_CHECK(o.spec->multi, what << ": multipart for a single range"); auto b = ct.find("boundary="); PBT_CHECK(b != ct.npos, "content type " << quote(ct)); auto bd = ct.substr(b + 9); if (bd.size() > 1 && bd.front() == '"') bd = bd.substr(1, bd.size() - 2);
                std::vector<std::map<std::string, std::string>> heads; auto ps = parts(m.body, bd, heads); PBT_EQ(ps.size(), ok.size(), what << ": number of parts");
                for (std::size_t i = 0; i < ps.size(); ++i) { PBT_EQ(heads[i]["content-range"], cr(ok[i]), what << ": part " << i); PBT_CHECK(ps[i] == bytes.substr(ok[i].a, ok[i].b - ok[i].a + 1), what << ": part " << i << " has other bytes: " << quote(ps[i], 100)); if (heads[i].count("content-length")) PBT_EQ(heads[i]["content-length"], std::to_string(ps[i].size()), what << ": length of part " << i); }
            } else {
                PBT_EQ(ok.size(), (std::size_t)1, what << ": a single part for several ranges"); PBT_EQ(m.head["content-range"], cr(ok[0]), what); PBT_EQ(ct, type, what); PBT_CHECK(m.body == bytes.substr(ok[0].a, ok[0].b - ok[0].a + 1), what << ": other bytes: " << quote(m.body, 100));
            }
        }
    } catch (nt::Bad const& b) { PBT_FAIL("not a well-formed response: " << b.why << " in " << quote(w, 400)); }
    PBT_CHECK(pos == w.size(), "bytes follow the last message: " << quote(std::string_view(w).substr(pos), 100));
}
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N11",
        .rule = "files of 0 bytes to several file blocks, also full of boundary-like text, and Range fields of one to six specifications (first-last, open, suffix; around the ends of the file, with leading zeros, huge numbers, optional blanks), a part of them malformed, on GET and HEAD, several per connection; non-trivial: some range is satisfiable",
        .assumptions = {"the file does not change while it is sent", "when only one of several ranges is satisfiable it may be sent as a single part or as a multipart message with one part"}},
        {{"ranges", ranges, 25000, 800000, 40}});
}

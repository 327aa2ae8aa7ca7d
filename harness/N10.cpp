// technique: property-based testing: generated files sent as chunked responses and requests through sockets with paced readers, read back by an independent HTTP/1.1 parser
// opt: -O1
#include <common/net.hpp>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
#include <fstream>
#include <dirent.h>
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using pbt::Gen; using pbt::quote;
using Long = decltype(20_s);

static std::string fileBytes(Gen& g) {
    std::size_t n = g.chance(65, 100) ? g.size(300) : g.sizeNear({131072, 131072 * 2, 131072 - 1, 16384, 65536, 131072 * 3}, g.chance(20, 100) ? 900000 : 140000);
    switch (g.draw(4)) { case 0: return g.blob(n); case 1: return std::string(n, '0'); case 2: { std::string s; while (s.size() < n) s += g.oneof<std::string>({"\r\n", "0\r\n\r\n", "\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "a"}); s.resize(n); return s; } default: { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(i * 31 + i / 251); return s; } }
}
struct File { std::string path, bytes, type; };
static const std::map<std::string, std::string> kTypes{{".html", "text/html"}, {".txt", "text/plain"}, {".jpg", "image/jpeg"}, {".png", "image/png"}, {".gif", "image/gif"}, {".css", "text/css"}, {".mp4", "video/mp4"}, {".pdf", "application/pdf"}, {".zip", "application/zip"}, {".json", "application/json"}, {".unknown9", "application/octet-stream"}, {"", "application/octet-stream"}, {".", "application/octet-stream"}, {".htm l", "application/octet-stream"}, {".txt~", "application/octet-stream"}};
static File makeFile(Gen& g, int i) {
    File f; f.bytes = fileBytes(g); auto it = std::next(kTypes.begin(), (long)g.draw(kTypes.size())); f.type = it->second; auto ext = it->first; if (g.chance(30, 100)) for (auto& c : ext) c = (char)std::toupper((unsigned char)c);
    f.path = pbt::scratch() + "/" + g.oneof<std::string>({"f", "a.b", "x.png", "photo 1", "..data"}) + std::to_string(i) + (ext.empty() ? "" : "") + ext; if (ext.empty()) f.path = pbt::scratch() + "/plain" + std::to_string(i);
    std::ofstream(f.path, std::ios::binary) << f.bytes; return f;
}
static int openFds() { int n = 0; DIR* d = ::opendir("/proc/self/fd"); while (::readdir(d)) ++n; ::closedir(d); return n; }
struct Pace { int sndbuf = 0; std::size_t step = 65536; int us = 0; std::string show() const { return "send buffer " + std::to_string(sndbuf) + " reader " + std::to_string(step) + "B/" + std::to_string(us) + "us"; } };
static Pace makePace(Gen& g) { Pace p; if (g.boolean()) { p.sndbuf = g.oneof({4608, 10000, 60000}); p.step = g.oneof<std::size_t>({700, 4096, 20000, 65536}); p.us = g.chance(20, 100) ? (int)g.draw(40) : 0; } return p; }

static void run(Gen& g, bool response) {
    std::size_t n = g.chance(60, 100) ? 1 : 2 + g.draw(2), total = 0; std::vector<File> fs; std::vector<bool> plain; std::string desc;
    for (std::size_t i = 0; i < n; ++i) { fs.push_back(makeFile(g, (int)i)); plain.push_back(g.chance(20, 100)); total += fs.back().bytes.size(); desc += (plain.back() ? "plain " : "") + quote(fs.back().path.substr(pbt::scratch().size())) + " " + std::to_string(fs.back().bytes.size()) + "B; "; }
    auto p = makePace(g); g.describe(desc + p.show()); g.nontrivial(total > 2); g.label(total > 131072 ? "several blocks" : total ? "one block" : "empty");
    nt::Duplex d(p.sndbuf); if (p.sndbuf || total > 60000) d.collect(p.step, p.us);
    coroutine::EventLoop loop; HttpIO io{d.lib, loop}; int fds = openFds(); HttpResponse<HttpIO> res{io};
    for (std::size_t i = 0; i < n; ++i) {
        if (response) {
            if (plain[i]) { res.setStatusAndContent(Status::CODE_200, "after"); loop.sync(res.sendRes()); } else { res.addHeader("X-N", std::to_string(i)); loop.sync(res.useChunkedEncodingTransferFile(fs[i].path)); }
            res.clear();
        } else { HttpRequest<HttpIO> req{io}; req.setReqLine<POST>("/up" + std::to_string(i)); req.addHeaders("X-N", std::to_string(i)); if (plain[i]) { req.setBody("after"); loop.sync(req.sendHttpReq<Long>()); } else loop.sync(req.sendChunkedReq<Long>(fs[i].path)); }
    }
    PBT_EQ(openFds(), fds, "files left open"); auto w = d.received(); std::size_t pos = 0;
    try {
        for (std::size_t i = 0; i < n; ++i) {
            auto at = pos; auto m = nt::readMsg(w, pos, response); PBT_EQ(m.start, response ? std::string("HTTP/1.1 200 OK") : "POST /up" + std::to_string(i) + " HTTP/1.1", "start line of message " << i << " at " << at);
            auto const& body = plain[i] ? std::string("after") : fs[i].bytes; PBT_CHECK(m.chunked != plain[i], "chunked coding");
            PBT_CHECK(m.body == body, "file of " << body.size() << " bytes arrived as " << m.body.size() << " bytes, first difference at " << (std::mismatch(m.body.begin(), m.body.begin() + (long)std::min(m.body.size(), body.size()), body.begin()).first - m.body.begin()));
            if (!plain[i]) { PBT_EQ(m.head["x-n"], std::to_string(i), "field set by the application"); if (response) { auto t = m.head["content-type"]; PBT_EQ(t.substr(0, t.find(';')), fs[i].type, "content type of " << quote(fs[i].path.substr(pbt::scratch().size()))); } }
        }
    } catch (nt::Bad const& b) { PBT_FAIL("not a well-formed message: " << b.why << " in " << quote(w, 300)); }
    PBT_CHECK(pos == w.size(), "bytes follow the last message: " << quote(std::string_view(w).substr(pos), 100));
    for (auto& f : fs) ::unlink(f.path.c_str());
}
static void responses(Gen& g) { run(g, true); }
static void uploads(Gen& g) { run(g, false); }
int main(int c, char** v) {
    return pbt::main(c, v, {.property = "N10",
        .rule = "files of 0 bytes to several file blocks, also full of chunk-like text, with names of known, unknown and no extension, sent as one or several messages mixed with ordinary ones, to readers of any pace; non-trivial: more than two bytes",
        .assumptions = {"the file does not change while it is sent"}},
        {{"responses", responses, 6000, 200000, 40}, {"uploads", uploads, 6000, 200000, 40}});
}

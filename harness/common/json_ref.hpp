#pragma once
// Independent strict JSON (RFC 8259) parser and printer used as the oracle.
#include <common/pbt.hpp>
#include <cmath>
namespace jref {
struct Mem;
struct Node {
    enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
    bool b = false;
    std::string s;              // string value, or number text
    int fl = 0;                 // expected numbers: 0 integer text, 1 double, 2 float
    double d = 0;
    std::vector<Node> a;
    std::vector<Mem> o;
    Node(); Node(Node const&); Node(Node&&) noexcept; Node& operator=(Node const&); Node& operator=(Node&&) noexcept; ~Node();
    static Node null();
    static Node boolean(bool v);
    static Node integer(std::string t); static Node dbl(double v, bool f32); static Node str(std::string t); static Node arr(); static Node obj();
};
struct Mem { std::string first; Node second; Mem() = default; Mem(std::string k, Node v) : first(std::move(k)), second(std::move(v)) {} };
inline Node::Node() = default; inline Node::Node(Node const&) = default; inline Node::Node(Node&&) noexcept = default;
inline Node& Node::operator=(Node const&) = default; inline Node& Node::operator=(Node&&) noexcept = default; inline Node::~Node() = default;
inline Node Node::null() { return {}; }
inline Node Node::boolean(bool v) { Node n; n.k = Bool; n.b = v; return n; }
inline Node Node::integer(std::string t) { Node n; n.k = Num; n.s = std::move(t); return n; }
inline Node Node::dbl(double v, bool f32) { Node n; n.k = Num; n.fl = f32 ? 2 : 1; n.d = v; return n; }
inline Node Node::str(std::string t) { Node n; n.k = Str; n.s = std::move(t); return n; }
inline Node Node::arr() { Node n; n.k = Arr; return n; }
inline Node Node::obj() { Node n; n.k = Obj; return n; }
inline void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}
// decode valid UTF-8 into code points; nullopt-like flag on invalid
inline bool codepoints(std::string const& s, std::vector<unsigned>& out) {
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = (unsigned char)s[i]; unsigned n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : 9;
        if (n == 9 || i + n >= s.size()) return false;
        unsigned v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
        for (unsigned k = 1; k <= n; ++k) { unsigned char d = (unsigned char)s[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 63); }
        if ((n == 2 && v < 0x800) || (n == 3 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v < 0xE000)) return false;
        out.push_back(v); i += n + 1;
    }
    return true;
}
struct Parser {
    std::string_view t; std::size_t p = 0; std::string err;
    bool fail(char const* m) { if (err.empty()) err = std::string(m) + " at " + std::to_string(p); return false; }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
    bool lit(std::string_view l) { if (t.substr(p, l.size()) != l) return fail("literal"); p += l.size(); return true; }
    bool hex4(unsigned& v) {
        v = 0;
        for (int i = 0; i < 4; ++i) { if (p >= t.size() || !isxdigit((unsigned char)t[p])) return fail("hex"); char c = t[p++];
            v = v * 16 + (unsigned)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
        return true;
    }
    bool string(std::string& o) {
        if (p >= t.size() || t[p] != '"') return fail("quote"); ++p;
        while (true) {
            if (p >= t.size()) return fail("unterminated string");
            unsigned char c = (unsigned char)t[p++];
            if (c == '"') break;
            if (c < 32) return fail("control character in string");
            if (c != '\\') { o += char(c); continue; }
            if (p >= t.size()) return fail("escape");
            switch (t[p++]) {
            case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break; case 'b': o += '\b'; break;
            case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { unsigned v; if (!hex4(v)) return false;
                if (v >= 0xDC00 && v < 0xE000) return fail("lone surrogate");
                if (v >= 0xD800 && v < 0xDC00) { unsigned w; if (t.substr(p, 2) != "\\u") return fail("lone surrogate"); p += 2; if (!hex4(w)) return false;
                    if (w < 0xDC00 || w > 0xDFFF) return fail("bad surrogate"); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
                utf8(o, v); break; }
            default: return fail("escape letter");
            }
        }
        std::vector<unsigned> cp; if (!codepoints(o, cp)) return fail("invalid UTF-8");
        return true;
    }
    bool number(Node& n) {
        std::size_t b = p;
        auto dig = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; };
        if (p < t.size() && t[p] == '-') ++p;
        if (!dig()) return fail("digit");
        if (t[p] == '0') ++p; else while (dig()) ++p;
        if (p < t.size() && t[p] == '.') { ++p; if (!dig()) return fail("fraction"); while (dig()) ++p; }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if (!dig()) return fail("exponent"); while (dig()) ++p; }
        n.k = Node::Num; n.s = std::string(t.substr(b, p - b)); return true;
    }
    bool value(Node& n, int depth = 0) {
        if (depth > 200) return fail("depth");
        ws(); if (p >= t.size()) return fail("end");
        switch (t[p]) {
        case 'n': n = Node::null(); return lit("null");
        case 't': n = Node::boolean(true); return lit("true");
        case 'f': n = Node::boolean(false); return lit("false");
        case '"': n.k = Node::Str; return string(n.s);
        case '[': ++p; n.k = Node::Arr; ws(); if (p < t.size() && t[p] == ']') { ++p; return true; }
            while (true) { n.a.emplace_back(); if (!value(n.a.back(), depth + 1)) return false; ws();
                if (p >= t.size()) return fail("end"); if (t[p] == ']') { ++p; return true; } if (t[p++] != ',') return fail("comma"); }
        case '{': ++p; n.k = Node::Obj; ws(); if (p < t.size() && t[p] == '}') { ++p; return true; }
            while (true) { ws(); n.o.emplace_back(); if (!string(n.o.back().first)) return false; ws(); if (p >= t.size() || t[p++] != ':') return fail("colon");
                if (!value(n.o.back().second, depth + 1)) return false; ws();
                if (p >= t.size()) return fail("end"); if (t[p] == '}') { ++p; return true; } if (t[p++] != ',') return fail("comma"); }
        default: return number(n);
        }
    }
};
inline bool parse(std::string_view t, Node& n, std::string& err) {
    Parser p{t}; if (!p.value(n)) { err = p.err; return false; }
    p.ws(); if (p.p != t.size()) { err = "trailing text at " + std::to_string(p.p); return false; }
    return true;
}
// does the parsed document denote the expected value?
inline bool same(Node const& exp, Node const& got, std::string const& path, std::string& why) {
    if (exp.k != got.k) { why = path + ": kind differs"; return false; }
    switch (exp.k) {
    case Node::Null: return true;
    case Node::Bool: if (exp.b != got.b) { why = path + ": bool"; return false; } return true;
    case Node::Str: if (exp.s != got.s) { why = path + ": string " + pbt::quote(got.s) + " for " + pbt::quote(exp.s); return false; } return true;
    case Node::Num: {
        bool ok = exp.fl == 0 ? exp.s == got.s : exp.fl == 1 ? std::strtod(got.s.c_str(), nullptr) == exp.d : std::strtof(got.s.c_str(), nullptr) == (float)exp.d;
        if (!ok) { why = path + ": number " + got.s + " for " + (exp.fl ? std::to_string(exp.d) : exp.s); return false; } return true; }
    case Node::Arr:
        if (exp.a.size() != got.a.size()) { why = path + ": array of " + std::to_string(got.a.size()) + " for " + std::to_string(exp.a.size()); return false; }
        for (std::size_t i = 0; i < exp.a.size(); ++i) if (!same(exp.a[i], got.a[i], path + "[" + std::to_string(i) + "]", why)) return false;
        return true;
    case Node::Obj:
        if (exp.o.size() != got.o.size()) { why = path + ": object of " + std::to_string(got.o.size()) + " for " + std::to_string(exp.o.size()); return false; }
        for (auto const& [k, v] : exp.o) {
            int n = 0;
            for (auto const& [k2, v2] : got.o) if (k2 == k) { ++n; if (!same(v, v2, path + "." + k, why)) return false; }
            if (n != 1) { why = path + ": member " + pbt::quote(k) + " occurs " + std::to_string(n) + " times"; return false; }
        }
        return true;
    }
    return false;
}
// any spelling of the document
inline void spell(Node const& n, pbt::Gen& g, std::string& o) {
    auto ws = [&] { if (g.chance(1, 4)) for (std::size_t k = g.draw(3) + 1; k--;) o += " \t\n\r"[g.draw(4)]; };
    auto str = [&](std::string const& s) {
        o += '"'; std::vector<unsigned> cp; codepoints(s, cp);
        for (unsigned c : cp) {
            bool must = c < 32 || c == '"' || c == '\\';
            if (!must && !g.chance(1, 5)) { utf8(o, c); continue; }
            char const* sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : nullptr;
            if (sh && g.boolean()) { o += sh; continue; }
            auto u = [&](unsigned v) { char b[8]; bool up = g.boolean(); std::snprintf(b, 8, up ? "\\u%04X" : "\\u%04x", v); o += b; };
            if (c >= 0x10000) { u(0xD800 + ((c - 0x10000) >> 10)); u(0xDC00 + ((c - 0x10000) & 0x3FF)); } else u(c);
        }
        o += '"';
    };
    ws();
    switch (n.k) {
    case Node::Null: o += "null"; break;
    case Node::Bool: o += n.b ? "true" : "false"; break;
    case Node::Str: str(n.s); break;
    case Node::Num:
        if (!n.fl) o += n.s;
        else {
            char b[64]; int prec = n.fl == 2 ? 9 : 17;
            switch (g.draw(4)) {
            case 0: std::snprintf(b, 64, "%.*g", prec, n.d); break;
            case 1: std::snprintf(b, 64, "%.*e", prec - 1, n.d); break;
            case 2: std::snprintf(b, 64, "%.*E", prec - 1, n.d); break;
            default: if (std::fabs(n.d) < 1e15 && n.d == std::floor(n.d)) std::snprintf(b, 64, "%.1f", n.d); else std::snprintf(b, 64, "%.*e", prec + 2, n.d);
            }
            o += b;
        }
        break;
    case Node::Arr: o += '['; for (std::size_t i = 0; i < n.a.size(); ++i) { if (i) o += ','; spell(n.a[i], g, o); } ws(); o += ']'; break;
    case Node::Obj: {
        std::vector<std::size_t> ord(n.o.size()); for (std::size_t i = 0; i < ord.size(); ++i) ord[i] = i;
        for (std::size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[i - 1 - g.draw(i)]);
        o += '{';
        for (std::size_t i = 0; i < ord.size(); ++i) { if (i) o += ','; ws(); str(n.o[ord[i]].first); ws(); o += ':'; spell(n.o[ord[i]].second, g, o); }
        ws(); o += '}'; break; }
    }
    ws();
}
} // namespace jref

// A small strict JSON reader (RFC 8259), independent of the code under test.
#ifndef VERIF_MINI_JSON_H
#define VERIF_MINI_JSON_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <utility>
#include <vector>

namespace mj {
struct Val {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t;
    bool b;
    std::string s;                                   // string content, or number text
    std::vector<Val> a;
    std::vector<std::pair<std::string, Val> > o;
    Val() : t(NUL), b(false) {}
    const Val* get(const std::string& k) const {
        for (size_t i = 0; i < o.size(); ++i) if (o[i].first == k) return &o[i].second;
        return NULL;
    }
};
class Reader {
public:
    Reader(const std::string& s) : s_(s), p_(0), ok_(true) {}
    bool parse(Val* v, bool any_root = true) {
        ws();
        if (!any_root && !(peek() == '{' || peek() == '[')) return false;
        value(v, 0);
        ws();
        return ok_ && p_ == s_.size();
    }
private:
    int peek() { return p_ < s_.size() ? (unsigned char)s_[p_] : -1; }
    int take() { int c = peek(); if (c >= 0) ++p_; return c; }
    void ws() { while (p_ < s_.size() && (s_[p_] == ' ' || s_[p_] == '\t' || s_[p_] == '\n' || s_[p_] == '\r')) ++p_; }
    void bad() { ok_ = false; }
    bool lit(const char* w) {
        size_t n = strlen(w);
        if (s_.compare(p_, n, w) == 0) { p_ += n; return true; }
        bad();
        return false;
    }
    static void utf8(std::string* o, unsigned cp) {
        if (cp < 0x80) *o += (char)cp;
        else if (cp < 0x800) { *o += (char)(0xC0 | cp >> 6); *o += (char)(0x80 | (cp & 63)); }
        else if (cp < 0x10000) { *o += (char)(0xE0 | cp >> 12); *o += (char)(0x80 | (cp >> 6 & 63)); *o += (char)(0x80 | (cp & 63)); }
        else { *o += (char)(0xF0 | cp >> 18); *o += (char)(0x80 | (cp >> 12 & 63)); *o += (char)(0x80 | (cp >> 6 & 63)); *o += (char)(0x80 | (cp & 63)); }
    }
    int hex4() {
        int v = 0;
        for (int i = 0; i < 4; ++i) {
            int c = take();
            if (c >= '0' && c <= '9') v = v * 16 + c - '0';
            else if (c >= 'a' && c <= 'f') v = v * 16 + c - 'a' + 10;
            else if (c >= 'A' && c <= 'F') v = v * 16 + c - 'A' + 10;
            else { bad(); return 0; }
        }
        return v;
    }
    void str(std::string* o) {
        if (take() != '"') return bad();
        while (ok_) {
            int c = take();
            if (c < 0x20) return bad();
            if (c == '"') return;
            if (c != '\\') { *o += (char)c; continue; }
            c = take();
            switch (c) {
            case '"': *o += '"'; break;
            case '\\': *o += '\\'; break;
            case '/': *o += '/'; break;
            case 'b': *o += '\b'; break;
            case 'f': *o += '\f'; break;
            case 'n': *o += '\n'; break;
            case 'r': *o += '\r'; break;
            case 't': *o += '\t'; break;
            case 'u': {
                unsigned cp = hex4();
                if (cp >= 0xD800 && cp <= 0xDBFF) {
                    if (take() != '\\' || take() != 'u') return bad();
                    unsigned lo = hex4();
                    if (lo < 0xDC00 || lo > 0xDFFF) return bad();
                    cp = 0x10000 + ((cp - 0xD800) << 10) + (lo - 0xDC00);
                }
                utf8(o, cp);
                break;
            }
            default: return bad();
            }
        }
    }
    void num(std::string* o) {
        size_t b = p_;
        if (peek() == '-') ++p_;
        if (peek() == '0') ++p_;
        else if (peek() >= '1' && peek() <= '9') while (peek() >= '0' && peek() <= '9') ++p_;
        else return bad();
        if (peek() == '.') {
            ++p_;
            if (!(peek() >= '0' && peek() <= '9')) return bad();
            while (peek() >= '0' && peek() <= '9') ++p_;
        }
        if (peek() == 'e' || peek() == 'E') {
            ++p_;
            if (peek() == '+' || peek() == '-') ++p_;
            if (!(peek() >= '0' && peek() <= '9')) return bad();
            while (peek() >= '0' && peek() <= '9') ++p_;
        }
        *o = s_.substr(b, p_ - b);
    }
    void value(Val* v, int depth) {
        if (depth > 5000) return bad();
        switch (peek()) {
        case 'n': v->t = Val::NUL; lit("null"); break;
        case 't': v->t = Val::BOOL; v->b = true; lit("true"); break;
        case 'f': v->t = Val::BOOL; v->b = false; lit("false"); break;
        case '"': v->t = Val::STR; str(&v->s); break;
        case '[':
            v->t = Val::ARR;
            ++p_; ws();
            if (peek() == ']') { ++p_; return; }
            while (ok_) {
                v->a.push_back(Val());
                ws(); value(&v->a.back(), depth + 1); ws();
                int c = take();
                if (c == ']') return;
                if (c != ',') return bad();
            }
            break;
        case '{':
            v->t = Val::OBJ;
            ++p_; ws();
            if (peek() == '}') { ++p_; return; }
            while (ok_) {
                ws();
                std::string k;
                str(&k);
                ws();
                if (take() != ':') return bad();
                ws();
                v->o.push_back(std::make_pair(k, Val()));
                value(&v->o.back().second, depth + 1); ws();
                int c = take();
                if (c == '}') return;
                if (c != ',') return bad();
            }
            break;
        default: v->t = Val::NUM; num(&v->s);
        }
    }
    const std::string& s_;
    size_t p_;
    bool ok_;
};
inline bool parse(const std::string& s, Val* v) { return Reader(s).parse(v); }

// True when the number text is an integer literal; neg and magnitude, saturating flag on overflow of 64 bits.
inline bool int_literal(const std::string& t, bool* neg, uint64_t* mag, bool* over) {
    size_t i = 0;
    *neg = false; *mag = 0; *over = false;
    if (i < t.size() && t[i] == '-') { *neg = true; ++i; }
    if (i >= t.size()) return false;
    for (; i < t.size(); ++i) {
        if (t[i] < '0' || t[i] > '9') return false;
        unsigned d = t[i] - '0';
        if (*mag > (UINT64_MAX - d) / 10) *over = true;
        *mag = *mag * 10 + d;
    }
    return true;
}
inline bool as_i64(const std::string& t, int64_t* v) {
    bool neg, over; uint64_t m;
    if (!int_literal(t, &neg, &m, &over) || over) return false;
    if (neg) { if (m > (uint64_t)INT64_MAX + 1) return false; *v = (int64_t)(0 - m); return true; }
    if (m > (uint64_t)INT64_MAX) return false;
    *v = (int64_t)m;
    return true;
}
inline bool as_u64(const std::string& t, uint64_t* v) {
    bool neg, over;
    if (!int_literal(t, &neg, v, &over) || over) return false;
    return !neg || *v == 0;
}
inline std::string b64(const std::string& s) {
    static const char* k = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    size_t i = 0;
    for (; i + 2 < s.size(); i += 3) {
        unsigned n = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2];
        r += k[n >> 18]; r += k[n >> 12 & 63]; r += k[n >> 6 & 63]; r += k[n & 63];
    }
    if (i + 1 == s.size()) { unsigned n = (unsigned char)s[i] << 16; r += k[n >> 18]; r += k[n >> 12 & 63]; r += "=="; }
    else if (i + 2 == s.size()) { unsigned n = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; r += k[n >> 18]; r += k[n >> 12 & 63]; r += k[n >> 6 & 63]; r += "="; }
    return r;
}
// Canonical base64 only.
inline bool unb64(const std::string& s, std::string* out) {
    if (s.size() % 4) return false;
    out->clear();
    std::string body = s;
    int pad = 0;
    while (body.size() && pad < 2 && body[body.size() - 1] == '=') { body.resize(body.size() - 1); ++pad; }
    unsigned acc = 0; int bits = 0;
    for (size_t i = 0; i < body.size(); ++i) {
        char c = body[i];
        int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
        if (v < 0) return false;
        acc = acc << 6 | v; bits += 6;
        if (bits >= 8) { bits -= 8; *out += (char)(acc >> bits); acc &= (1u << bits) - 1; }
    }
    return true;
}
inline std::string quote(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
} // namespace mj
#endif

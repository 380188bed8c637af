// C15: text helpers agree with plain definitions and invert each other.
#include <ctype.h>
#include <sofa/pbrpc/ascii.h>
#include <sofa/pbrpc/bin2ascii.h>
#include <sofa/pbrpc/string_utils.h>
#include "mini_json.h"
#include "pbt.h"
using namespace sofa::pbrpc;
using namespace pbt;
typedef StringUtils SU;

static std::string bytes(Src& s, size_t max = 40) {
    switch (s.weighted({4, 3, 2, 2})) {
    case 0: return s.any_bytes(max);
    case 1: { static const char odd[] = "\0\1\n\r\t\b\f\"'\\/&<>;%01279aAfFgG \x7f\x80\xff"; return s.str(std::string(odd, sizeof(odd) - 1), max); }
    case 2: return s.str("ab%2Ff41", max);
    default: return s.data(s.logsize(3000));
    }
}
static void split_join(Src& s, Ctx& c) {
    std::string a = s.chance(60) ? s.str("ab@", 24) : s.str("a@", 60);
    std::string d = s.pick<const char*>({"@", "@@", "a@", "ab", "aa", "b", "xyz", ""});
    c.note(show(a) + " by " + show(d));
    // plain definition
    std::vector<std::string> want, got;
    got.push_back("old");
    if (d.empty()) want.push_back(a);
    else {
        std::string cur;
        for (size_t i = 0; i < a.size();) {
            if (a.compare(i, d.size(), d) == 0) { want.push_back(cur); cur.clear(); i += d.size(); } else cur += a[i++];
        }
        want.push_back(cur);
    }
    SU::split(a, d, &got);
    PBT_CHECK(got == want, "split(%s, %s): %zu pieces, %zu expected", show(a).c_str(), show(d).c_str(), got.size(), want.size());
    PBT_CHECK(SU::join(got, d) == a, "join does not invert split of %s by %s", show(a).c_str(), show(d).c_str());
    std::string n = s.pick<const char*>({"", "@", "X", "YZ@Q", "ab"});
    PBT_CHECK(SU::replace_all(a, d, n) == (d.empty() ? a : SU::join(want, n)), "replace_all(%s, %s, %s) = %s", show(a).c_str(), show(d).c_str(), n.c_str(), show(SU::replace_all(a, d, n)).c_str());
    std::string r1 = a;
    size_t p = d.empty() ? std::string::npos : a.find(d);
    if (p != std::string::npos) r1 = a.substr(0, p) + n + a.substr(p + d.size());
    PBT_CHECK(SU::replace(a, d, n) == r1, "replace(%s, %s, %s)", show(a).c_str(), show(d).c_str(), n.c_str());
    PBT_CHECK(SU::begin_with(a, d) == (a.substr(0, d.size()) == d && a.size() >= d.size()), "begin_with");
    PBT_CHECK(SU::end_with(a, d) == (a.size() >= d.size() && a.compare(a.size() - d.size(), d.size(), d) == 0), "end_with(%s, %s)", show(a).c_str(), show(d).c_str());
    c.nontrivial(want.size() > 1);
}
static void ascii(Src& s, Ctx& c) {
    std::string a = bytes(s);
    c.note(show(a));
    std::string lo, up;
    for (size_t i = 0; i < a.size(); ++i) {
        char ch = a[i];
        bool u = ch >= 'A' && ch <= 'Z', l = ch >= 'a' && ch <= 'z';
        lo += u ? ch + 32 : ch;
        up += l ? ch - 32 : ch;
        int x = (unsigned char)ch;
        bool seven = x < 128;
        PBT_CHECK(Ascii::is_upper(ch) == u && Ascii::is_lower(ch) == l, "case class of %d", x);
        PBT_CHECK(Ascii::is_digit(ch) == (ch >= '0' && ch <= '9'), "is_digit %d", x);
        PBT_CHECK(Ascii::is_alpha_number(ch) == (seven && isalnum(x)), "is_alpha_number %d", x);
        PBT_CHECK(Ascii::is_hex_digit(ch) == (seven && isxdigit(x)), "is_hex_digit %d", x);
        PBT_CHECK(Ascii::is_space(ch) == (seven && isspace(x)), "is_space %d", x);
    }
    PBT_CHECK(SU::to_lower(a) == lo, "to_lower %s", show(SU::to_lower(a)).c_str());
    PBT_CHECK(SU::to_upper(a) == up, "to_upper %s", show(SU::to_upper(a)).c_str());
    std::string pad = s.str(" \t\n\r\v\fx", 6) + a + s.str(" \t\n\r\v\fx", 6);
    size_t b = 0, e = pad.size();
    while (b < e && strchr(" \t\n\r\v\f", pad[b]) && pad[b]) ++b;
    while (e > b && strchr(" \t\n\r\v\f", pad[e - 1]) && pad[e - 1]) --e;
    PBT_CHECK(SU::trim(pad) == pad.substr(b, e - b), "trim %s", show(pad).c_str());
    c.nontrivial(a.size() > 1);
}
static void escapes(Src& s, Ctx& c) {
    std::string a = bytes(s);
    c.note(show(a));
    std::string e = SU::c_escape_string(a);
    for (size_t i = 0; i < e.size(); ++i) PBT_CHECK(e[i] >= 0x20 && e[i] < 0x7f, "c-escaped text has byte %d", (unsigned char)e[i]);
    PBT_CHECK(SU::unescape_c_escape_string(e) == a, "c-escape: %s back as %s", show(e).c_str(), show(SU::unescape_c_escape_string(e)).c_str());
    // xml
    std::string x = SU::xml_escape_string(a), back;
    for (size_t i = 0; i < x.size();) {
        static const struct { const char* n; char ch; } ent[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}};
        char ch = x[i];
        PBT_CHECK(ch != '<' && ch != '>' && ch != '"' && ch != '\'', "raw markup character in %s", show(x).c_str());
        if (ch != '&') { back += ch; ++i; continue; }
        bool ok = false;
        for (auto& t : ent) if (x.compare(i, strlen(t.n), t.n) == 0) { back += t.ch; i += strlen(t.n); ok = true; break; }
        PBT_CHECK(ok, "unknown entity in %s", show(x).c_str());
    }
    PBT_CHECK(back == a, "xml escape changed the text: %s", show(x).c_str());
    // json
    std::string j = "\"" + SU::json_escape_string(a) + "\"";
    mj::Val v;
    PBT_CHECK(mj::parse(j, &v) && v.t == mj::Val::STR, "json escape of %s is not a JSON string: %s", show(a).c_str(), show(j).c_str());
    PBT_CHECK(v.s == a, "json escape changed the text: %s", show(j).c_str());
    c.nontrivial(a.size() > 1);
}
// Text with C escapes written by hand: all documented sequences, and broken ones.
static void unescape(Src& s, Ctx& c) {
    std::string text, want;
    bool bad = false;
    int n = 1 + s.draw(8);
    for (int i = 0; i < n && !bad; ++i) {
        switch (s.weighted({4, 4, 3, 3, 1})) {
        case 0: { char ch = s.pick<char>({'a', 'x', '8', '9', ' ', 'G', '\x80'}); text += ch; want += ch; break; }
        case 1: { static const char* k = "abfnrtv\\?'\""; static const char v[] = "\a\b\f\n\r\t\v\\?'\""; size_t q = s.draw(10); text += '\\'; text += k[q]; want += v[q]; break; }
        case 2: { unsigned v = s.draw(255); text += fmt("\\%03o", v); want += (char)v; break; }
        case 3: { unsigned v = s.draw(255); text += fmt(s.chance(50) ? "\\x%02x" : "\\X%02X", v); want += (char)v; text += 'G'; want += 'G'; break; }
        default: { text += s.pick<const char*>({"\\", "\\q", "\\xg", "\\u0041", "\\8", "\\x", "\\xfff"}); bad = true; break; }
        }
    }
    c.note(show(text));
    std::string got;
    bool threw = false;
    try { got = SU::unescape_c_escape_string(text); } catch (const std::runtime_error&) { threw = true; }
    PBT_CHECK(threw == bad, "%s: %s", show(text).c_str(), threw ? "rejected" : "accepted");
    if (!bad) PBT_CHECK(got == want, "unescape(%s) = %s, expected %s", show(text).c_str(), show(got).c_str(), show(want).c_str());
    c.nontrivial(n > 1);
    if (bad) c.label("bad-escape");
}
static bool reserved(unsigned char ch) { return ch && strchr("!#$&'()*+,/:;=?@[]", ch); }
static int hexv(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static void url(Src& s, Ctx& c) {
    std::string a = bytes(s);
    c.note(show(a));
    int ef = (s.chance(50) ? SU::E_ENCODE_RESERVED_CHAR : 0) | (s.chance(30) ? SU::E_NOT_ENCODE_HIGH_CHAR : 0);
    int df = (s.chance(60) ? SU::E_DECODE_RESERVED_CHAR : 0) | (s.chance(60) ? SU::E_DECODE_PERCENT_SIGN_CHAR : 0);
    const int both = SU::E_DECODE_RESERVED_CHAR | SU::E_DECODE_PERCENT_SIGN_CHAR;
    // decoding against its definition
    std::string want;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i] == '%' && i + 2 < a.size() && hexv(a[i + 1]) >= 0 && hexv(a[i + 2]) >= 0) {
            unsigned char ch = hexv(a[i + 1]) * 16 + hexv(a[i + 2]);
            if ((reserved(ch) && !(df & SU::E_DECODE_RESERVED_CHAR)) || (ch == '%' && !(df & SU::E_DECODE_PERCENT_SIGN_CHAR))) want += a.substr(i, 3);
            else want += (char)ch;
            i += 2;
        } else want += a[i];
    }
    PBT_CHECK(SU::decode_url(a, df) == want, "decode_url(%s, %d) = %s, expected %s", show(a).c_str(), df, show(SU::decode_url(a, df)).c_str(), show(want).c_str());
    // encoding: safe characters only, and decoding inverts it
    std::string e = SU::encode_url(a, ef);
    bool coded = false;
    for (size_t i = 0; i + 2 < a.size(); ++i) if (a[i] == '%' && hexv(a[i + 1]) >= 0 && hexv(a[i + 2]) >= 0) coded = true;
    for (size_t i = 0; i < e.size(); ++i) {
        unsigned char ch = e[i];
        bool ok = isalnum(ch) && ch < 128;
        ok = ok || ch == '-' || ch == '_' || ch == '.' || ch == '%';
        if (!(ef & SU::E_ENCODE_RESERVED_CHAR)) ok = ok || reserved(ch);
        if (ef & SU::E_NOT_ENCODE_HIGH_CHAR) ok = ok || ch > 127;
        PBT_CHECK(ok || ch == '~', "encoded text has %d: %s", ch, show(e).c_str());
        if (ch == '%') PBT_CHECK(i + 2 < e.size() && hexv(e[i + 1]) >= 0 && hexv(e[i + 2]) >= 0, "bare percent sign in %s", show(e).c_str());
    }
    if (!coded) PBT_CHECK(SU::decode_url(e, both) == a, "url round trip of %s through %s gave %s", show(a).c_str(), show(e).c_str(), show(SU::decode_url(e, both)).c_str());
    PBT_CHECK(SU::encode_url(e, ef) == e, "encoding twice changes %s", show(e).c_str());
    if (coded) c.label("already-encoded");
    c.nontrivial(a.find('%') != std::string::npos);
}
static void binary_text(Src& s, Ctx& c) {
    std::string a = bytes(s);
    c.note(show(a));
    std::string h = bin2hex(a), want;
    for (size_t i = 0; i < a.size(); ++i) want += fmt("%02x", (unsigned char)a[i]);
    PBT_CHECK(h == want, "bin2hex(%s) = %s", show(a).c_str(), show(h).c_str());
    PBT_CHECK(hex2bin(h) == a, "hex2bin does not invert bin2hex for %s", show(a).c_str());
    PBT_CHECK(hex2bin(SU::to_upper(h)) == a, "hex2bin of upper case");
    std::string b = b64_encode(a);
    PBT_CHECK(b == mj::b64(a), "b64_encode(%s) = %s", show(a).c_str(), b.c_str());
    PBT_CHECK(b64_decode(b) == a, "b64_decode does not invert b64_encode for %s", show(a).c_str());
    // any text: decoded or refused with an exception
    std::string t = bytes(s, 24);
    bool ok = t.size() % 2 == 0;
    for (char ch : t) if (hexv(ch) < 0) ok = false;
    bool took = true;
    try { hex2bin(t); } catch (const std::runtime_error&) { took = false; }
    PBT_CHECK(took == ok, "hex2bin(%s) %s", show(t).c_str(), took ? "accepted" : "rejected");
    std::string raw;
    bool b64ok = mj::unb64(t, &raw);
    took = true;
    std::string out;
    try { out = b64_decode(t); } catch (const std::runtime_error&) { took = false; }
    if (b64ok) PBT_CHECK(took && out == raw, "b64_decode(%s)", show(t).c_str());
    else if (t.find('=') == std::string::npos) PBT_CHECK(!took, "b64_decode accepted %s", show(t).c_str());
    c.nontrivial(a.size() > 1);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C15";
    p.rule = "Generated byte strings (all byte values, escape-like and percent-coded fragments) through every escape/unescape, encode/decode, split/join, replace, trim and case helper; "
             "results compared with plain definitions and inverted. Non-trivial: the input holds a separator, escape or more than one byte.";
    p.subs = {{"split", split_join, 1200000, 15000000}, {"ascii", ascii, 500000, 5000000}, {"escapes", escapes, 800000, 9000000},
              {"unescape", unescape, 800000, 9000000}, {"url", url, 900000, 10000000}, {"binary", binary_text, 500000, 6000000}};
    p.quick_budget_s = 20;
    p.recycle = 50000;
    return run(argc, argv, p);
}

// Random protobuf messages and comparison of a message with a JSON tree.
#ifndef VERIF_GEN_MSG_H
#define VERIF_GEN_MSG_H
#include <math.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>
#include "mini_json.h"
#include "pbt.h"
#include "vtest.pb.h"

namespace gm {
using namespace google::protobuf;
typedef ::pbt::Src Src;

inline double gen_double(Src& s) {
    switch (s.weighted({4, 3, 2, 1})) {
    case 0: return (double)((int64_t)s.draw(2000) - 1000);
    case 1: return ((double)s.draw(2000000) - 1000000) / 1024.0;
    case 2: { double m = 1 + s.draw(999) / 1000.0; int e = (int)s.draw(560) - 280; return (s.chance(50) ? -1 : 1) * m * pow(10, e); }
    default: return s.pick<double>({0.0, -0.0, 1e280, -1e-280, 0.1, 1.0 / 3, 123456789.0});
    }
}
inline float gen_float(Src& s) {
    switch (s.weighted({4, 3, 2})) {
    case 0: return (float)((int)s.draw(2000) - 1000);
    case 1: return (float)((double)s.draw(2000000) - 1000000) / 1024.0f;
    default: { double m = 1 + s.draw(999) / 1000.0; int e = (int)s.draw(70) - 35; return (float)((s.chance(50) ? -1 : 1) * m * pow(10, e)); }
    }
}
inline std::string gen_text(Src& s, size_t max) {
    switch (s.weighted({3, 3, 2, 2})) {
    case 0: return s.str("abc xyz", max);
    case 1: { static const char odd[] = "\"\\/\b\f\n\r\t\0\x01\x1f\x7f'<>&%{}[]:,u0"; return s.str(std::string(odd, sizeof(odd) - 1), max); }
    case 2: { std::string r; size_t n = s.logsize(max / 3); static const char* u[] = {"\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xd7\x90", "a", "\xef\xbf\xbf", "\xf4\x8f\xbf\xbf"};
              for (size_t i = 0; i < n; ++i) r += u[s.draw(6)]; return r; }
    default: return s.data(s.size_near({0, 1, 255, 256, 1023, 4096}, 6000));
    }
}
struct Opt { bool any_bytes_in_text; int max_depth; int max_rep; bool required; Opt() : any_bytes_in_text(true), max_depth(3), max_rep(5), required(true) {} };

inline void fill(Src& s, Message* m, const Opt& o, int depth = 0);
inline void set_field(Src& s, Message* m, const FieldDescriptor* f, const Opt& o, int depth, bool add) {
    const Reflection* r = m->GetReflection();
    switch (f->cpp_type()) {
#define NUMF(T, N, E) case FieldDescriptor::CPPTYPE_##T: if (add) r->Add##N(m, f, E); else r->Set##N(m, f, E); break;
    NUMF(INT32, Int32, (int32)s.any_i64())
    NUMF(INT64, Int64, s.any_i64())
    NUMF(UINT32, UInt32, (uint32)s.any_i64())
    NUMF(UINT64, UInt64, (uint64)s.any_i64())
    NUMF(DOUBLE, Double, gen_double(s))
    NUMF(FLOAT, Float, gen_float(s))
    NUMF(BOOL, Bool, s.chance(50))
#undef NUMF
    case FieldDescriptor::CPPTYPE_ENUM: {
        const EnumValueDescriptor* v = f->enum_type()->value(s.draw(f->enum_type()->value_count() - 1));
        if (add) r->AddEnum(m, f, v); else r->SetEnum(m, f, v);
        break;
    }
    case FieldDescriptor::CPPTYPE_STRING: {
        std::string v = f->type() == FieldDescriptor::TYPE_BYTES ? (s.chance(50) ? s.any_bytes(9) : s.data(s.logsize(5000))) : gen_text(s, 60);
        if (add) r->AddString(m, f, v); else r->SetString(m, f, v);
        break;
    }
    case FieldDescriptor::CPPTYPE_MESSAGE:
        fill(s, add ? r->AddMessage(m, f) : r->MutableMessage(m, f), o, depth + 1);
        break;
    }
}
inline void fill(Src& s, Message* m, const Opt& o, int depth) {
    const Descriptor* d = m->GetDescriptor();
    int density = s.pick<int>({10, 30, 60, 90});
    for (int i = 0; i < d->field_count(); ++i) {
        const FieldDescriptor* f = d->field(i);
        if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE && depth >= o.max_depth) continue;
        if (f->is_required()) { if (o.required) set_field(s, m, f, o, depth, false); continue; }
        if (!s.chance(density)) continue;
        if (f->is_repeated()) {
            int n = s.logsize(depth == 0 ? o.max_rep : 2);
            for (int k = 0; k < n; ++k) set_field(s, m, f, o, depth, true);
        } else set_field(s, m, f, o, depth, false);
    }
}
inline int count_set(const Message& m) {
    std::vector<const FieldDescriptor*> v;
    m.GetReflection()->ListFields(m, &v);
    return (int)v.size();
}
// rel: tolerance of floating point values that went through text.
inline bool near(double a, double b, double rel) {
    if (a == b) return true;
    return fabs(a - b) <= rel * std::max(fabs(a), fabs(b));
}
inline std::string value_matches(const Message& m, const FieldDescriptor* f, int idx, const mj::Val& v, double rel);
// Empty string when the JSON tree says exactly what the message says.
inline std::string matches(const Message& m, const mj::Val& v, double rel) {
    if (v.t != mj::Val::OBJ) return "not an object";
    const Descriptor* d = m.GetDescriptor();
    const Reflection* r = m.GetReflection();
    size_t seen = 0;
    for (int i = 0; i < d->field_count(); ++i) {
        const FieldDescriptor* f = d->field(i);
        const mj::Val* x = v.get(f->name());
        if (f->is_repeated()) {
            int n = r->FieldSize(m, f);
            if (!x) { if (n) return "missing repeated " + f->name(); continue; }
            ++seen;
            if (x->t != mj::Val::ARR) return f->name() + " is not an array";
            if ((int)x->a.size() != n) return f->name() + ::pbt::fmt(" has %zu elements, message has %d", x->a.size(), n);
            for (int k = 0; k < n; ++k) { std::string e = value_matches(m, f, k, x->a[k], rel); if (e.size()) return e; }
        } else if (r->HasField(m, f)) {
            if (!x) return "missing " + f->name();
            ++seen;
            std::string e = value_matches(m, f, -1, *x, rel);
            if (e.size()) return e;
        } else if (x && f->is_optional()) return "unset field present: " + f->name();
        else if (x) ++seen;
    }
    if (seen != v.o.size()) return ::pbt::fmt("object has %zu members, %zu expected", v.o.size(), seen);
    return "";
}
inline std::string value_matches(const Message& m, const FieldDescriptor* f, int idx, const mj::Val& v, double rel) {
    const Reflection* r = m.GetReflection();
#define GET(N) (idx < 0 ? r->Get##N(m, f) : r->GetRepeated##N(m, f, idx))
    int64_t i64; uint64_t u64;
    switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: if (v.t != mj::Val::NUM || !mj::as_i64(v.s, &i64) || i64 != GET(Int32)) return f->name() + " int32: " + v.s; break;
    case FieldDescriptor::CPPTYPE_INT64: if (v.t != mj::Val::NUM || !mj::as_i64(v.s, &i64) || i64 != GET(Int64)) return f->name() + " int64: " + v.s; break;
    case FieldDescriptor::CPPTYPE_UINT32: if (v.t != mj::Val::NUM || !mj::as_u64(v.s, &u64) || u64 != GET(UInt32)) return f->name() + " uint32: " + v.s; break;
    case FieldDescriptor::CPPTYPE_UINT64: if (v.t != mj::Val::NUM || !mj::as_u64(v.s, &u64) || u64 != GET(UInt64)) return f->name() + " uint64: " + v.s; break;
    case FieldDescriptor::CPPTYPE_DOUBLE: if (v.t != mj::Val::NUM || !near(strtod(v.s.c_str(), 0), GET(Double), rel)) return f->name() + " double: " + v.s + ::pbt::fmt(" for %.17g", GET(Double)); break;
    case FieldDescriptor::CPPTYPE_FLOAT: if (v.t != mj::Val::NUM || !near(strtod(v.s.c_str(), 0), GET(Float), rel)) return f->name() + " float: " + v.s; break;
    case FieldDescriptor::CPPTYPE_BOOL: if (v.t != mj::Val::BOOL || v.b != GET(Bool)) return f->name() + " bool"; break;
    case FieldDescriptor::CPPTYPE_ENUM: if (v.t != mj::Val::NUM || !mj::as_i64(v.s, &i64) || i64 != GET(Enum)->number()) return f->name() + " enum: " + v.s; break;
    case FieldDescriptor::CPPTYPE_STRING: {
        std::string w = GET(String);
        if (f->type() == FieldDescriptor::TYPE_BYTES) w = mj::b64(w);
        if (v.t != mj::Val::STR || v.s != w) return f->name() + " string: " + ::pbt::show(v.s) + " for " + ::pbt::show(w);
        break;
    }
    case FieldDescriptor::CPPTYPE_MESSAGE: { std::string e = matches(GET(Message), v, rel); return e.empty() ? e : f->name() + "." + e; }
    }
#undef GET
    return "";
}
// Message equality with tolerance for floating point.
inline std::string same(const Message& a, const Message& b, double rel) {
    const Descriptor* d = a.GetDescriptor();
    const Reflection* r = a.GetReflection();
    std::vector<const FieldDescriptor*> fa, fb;
    r->ListFields(a, &fa);
    r->ListFields(b, &fb);
    if (fa != fb) return "different fields set in " + d->name();
    for (size_t i = 0; i < fa.size(); ++i) {
        const FieldDescriptor* f = fa[i];
        int n = f->is_repeated() ? r->FieldSize(a, f) : 1;
        if (f->is_repeated() && r->FieldSize(b, f) != n) return f->name() + ": different sizes";
        for (int k = 0; k < n; ++k) {
            int idx = f->is_repeated() ? k : -1;
#define G(M, N) (idx < 0 ? r->Get##N(M, f) : r->GetRepeated##N(M, f, idx))
#define EQ(T, N) case FieldDescriptor::CPPTYPE_##T: if (G(a, N) != G(b, N)) return f->name() + " differs"; break;
            switch (f->cpp_type()) {
            EQ(INT32, Int32) EQ(INT64, Int64) EQ(UINT32, UInt32) EQ(UINT64, UInt64) EQ(BOOL, Bool) EQ(ENUM, Enum)
            case FieldDescriptor::CPPTYPE_STRING: { std::string x = G(a, String), y = G(b, String); if (x != y) return f->name() + " differs: " + ::pbt::show(x) + " / " + ::pbt::show(y); break; }
            case FieldDescriptor::CPPTYPE_DOUBLE: if (!near(G(a, Double), G(b, Double), rel)) return f->name() + ::pbt::fmt(" differs: %.17g / %.17g", G(a, Double), G(b, Double)); break;
            case FieldDescriptor::CPPTYPE_FLOAT: if (!near(G(a, Float), G(b, Float), rel)) return f->name() + ::pbt::fmt(" differs: %.9g / %.9g", G(a, Float), G(b, Float)); break;
            case FieldDescriptor::CPPTYPE_MESSAGE: { std::string e = same(G(a, Message), G(b, Message), rel); if (e.size()) return f->name() + "." + e; break; }
            }
#undef EQ
#undef G
        }
    }
    return "";
}
// Text written by another producer: any member order, whitespace, escapes; unset members absent.
inline void put_ws(Src& s, std::string* o) { if (s.chance(30)) *o += s.pick<const char*>({" ", "\n", "\t", " \r\n "}); }
inline std::string quote_odd(Src& s, const std::string& t) {
    std::string r = "\"";
    for (size_t i = 0; i < t.size(); ++i) {
        unsigned char ch = t[i];
        if (ch < 0x80 && (ch < 0x20 || ch == '"' || ch == '\\' || s.draw(7) == 7)) {
            const char* sh = ch == '\n' ? "\\n" : ch == '\t' ? "\\t" : ch == '/' ? "\\/" : ch == '"' ? "\\\"" : ch == '\\' ? "\\\\" : ch == '\b' ? "\\b" : NULL;
            if (sh && s.chance(50)) r += sh; else r += ::pbt::fmt(s.chance(50) ? "\\u%04x" : "\\u%04X", ch);
        } else if (ch == 0xf0 && t.compare(i, 4, "\xf0\x9f\x98\x80") == 0 && s.chance(70)) { r += "\\ud83d\\uDE00"; i += 3; }
        else if (ch == 0xe4 && t.compare(i, 3, "\xe4\xb8\xad") == 0 && s.chance(50)) { r += "\\u4e2d"; i += 2; }
        else r += ch;
    }
    return r + "\"";
}
inline std::string write_json(Src& s, const Message& m);
inline std::string write_value(Src& s, const Message& m, const FieldDescriptor* f, int idx) {
    const Reflection* r = m.GetReflection();
#define GET(N) (idx < 0 ? r->Get##N(m, f) : r->GetRepeated##N(m, f, idx))
    switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: return ::pbt::fmt("%d", GET(Int32));
    case FieldDescriptor::CPPTYPE_INT64: return ::pbt::fmt("%lld", (long long)GET(Int64));
    case FieldDescriptor::CPPTYPE_UINT32: return ::pbt::fmt("%u", GET(UInt32));
    case FieldDescriptor::CPPTYPE_UINT64: return ::pbt::fmt("%llu", (unsigned long long)GET(UInt64));
    case FieldDescriptor::CPPTYPE_DOUBLE: { double d = GET(Double); return d == (long long)d && fabs(d) < 1e15 && s.chance(50) ? ::pbt::fmt("%lld", (long long)d) : ::pbt::fmt("%.16e", d); }
    case FieldDescriptor::CPPTYPE_FLOAT: return ::pbt::fmt(s.chance(50) ? "%.9e" : "%.8E", GET(Float));
    case FieldDescriptor::CPPTYPE_BOOL: return GET(Bool) ? "true" : "false";
    case FieldDescriptor::CPPTYPE_ENUM: return s.chance(50) ? mj::quote(GET(Enum)->name()) : ::pbt::fmt("%d", GET(Enum)->number());
    case FieldDescriptor::CPPTYPE_STRING: return f->type() == FieldDescriptor::TYPE_BYTES ? quote_odd(s, mj::b64(GET(String))) : quote_odd(s, GET(String));
    default: return write_json(s, GET(Message));
    }
#undef GET
}
inline std::string write_json(Src& s, const Message& m) {
    std::vector<const FieldDescriptor*> f;
    m.GetReflection()->ListFields(m, &f);
    for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[s.draw(i - 1)]);
    std::string o = "{";
    for (size_t i = 0; i < f.size(); ++i) {
        put_ws(s, &o);
        if (i) { o += ","; put_ws(s, &o); }
        o += f[i]->is_extension() ? mj::quote(f[i]->full_name()) : mj::quote(f[i]->name());
        put_ws(s, &o); o += ":"; put_ws(s, &o);
        if (f[i]->is_repeated()) {
            o += "[";
            int n = m.GetReflection()->FieldSize(m, f[i]);
            for (int k = 0; k < n; ++k) { if (k) o += ","; put_ws(s, &o); o += write_value(s, m, f[i], k); put_ws(s, &o); }
            o += "]";
        } else o += write_value(s, m, f[i], -1);
        put_ws(s, &o);
    }
    return o + "}";
}
} // namespace gm
#endif

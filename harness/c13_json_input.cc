// C13: any text offered as JSON is either read exactly or rejected with an error; never a crash.
#include <sofa/pbrpc/pbjson.h>
#include "pbt.h"
#include "gen_msg.h"
using namespace sofa::pbrpc;
using namespace pbt;
using namespace google::protobuf;

// ---- generated documents, guided by the schema, with wrong parts mixed in ----
static std::string num_text(Src& s) {
    switch (s.weighted({4, 3, 3, 2, 2, 2})) {
    case 0: return fmt("%lld", (long long)s.any_i64());
    case 1: return s.pick<const char*>({"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
                                        "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-0", "0", "-1"});
    case 2: return s.pick<const char*>({"1.5", "0.0", "1.0", "-2.25", "1e3", "1E+2", "25e-1", "1e18", "-1e-5", "123456789.125", "3e38", "1e39", "1e300", "-3.5e38"});
    case 3: return fmt("%llu", (unsigned long long)s.any_i64());
    case 4: return fmt("%.17g", gm::gen_double(s));
    default: return fmt("%d.%llue%d", (int)s.draw(200) - 100, (unsigned long long)s.draw(99999), (int)s.draw(40) - 20);
    }
}
static std::string any_value(Src& s, int depth);
static std::string text_value(Src& s) {
    switch (s.weighted({3, 2, 2, 2, 2})) {
    case 0: return mj::quote(gm::gen_text(s, 12));
    case 1: return mj::quote(mj::b64(s.any_bytes(9)));
    case 2: return mj::quote(s.pick<const char*>({"RED", "GREEN", "BLUE", "NEG", "red", "PURPLE", "7", ""}));
    case 3: { std::string b = mj::b64(s.any_bytes(9)); if (b.size()) b[s.draw(b.size() - 1)] = s.pick<char>({'=', '-', '_', ' ', '!', '\x7f', (char)0xc3, 'A'}); return mj::quote(b); }
    default: return s.pick<const char*>({"\"\\u0041\"", "\"\\ud83d\\ude00\"", "\"a\\u0000b\"", "\"\\/\\b\\f\"", "\"===\"", "\"A\"", "\"AAA=\"", "\"A===\"", "\"====\"", "\"RED\\u0000x\""});
    }
}
static std::string any_value(Src& s, int depth) {
    switch (s.weighted({4, 4, 2, 2, depth > 3 ? 0 : 2, depth > 3 ? 0 : 2})) {
    case 0: return num_text(s);
    case 1: return text_value(s);
    case 2: return s.chance(50) ? "true" : "false";
    case 3: return "null";
    case 4: { std::string o = "["; int n = s.draw(3); for (int i = 0; i < n; ++i) o += (i ? "," : "") + any_value(s, depth + 1); return o + "]"; }
    default: { std::string o = "{"; int n = s.draw(2); for (int i = 0; i < n; ++i) o += (i ? ",\"" : "\"") + s.pick<std::string>({"a", "id", "s"}) + "\":" + any_value(s, depth + 1); return o + "}"; }
    }
}
static std::string doc(Src& s, const Descriptor* d, int depth, int wrong);
static std::string good_value(Src& s, const FieldDescriptor* f, int depth, int wrong) {
    if (s.chance(wrong)) return any_value(s, depth);
    switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: return fmt("%d", (int)s.any_i64());
    case FieldDescriptor::CPPTYPE_UINT32: return fmt("%u", (unsigned)s.any_i64());
    case FieldDescriptor::CPPTYPE_INT64: return fmt("%lld", (long long)s.any_i64());
    case FieldDescriptor::CPPTYPE_UINT64: return fmt("%llu", (unsigned long long)s.any_i64());
    case FieldDescriptor::CPPTYPE_DOUBLE: case FieldDescriptor::CPPTYPE_FLOAT: return num_text(s);
    case FieldDescriptor::CPPTYPE_BOOL: return s.chance(50) ? "true" : "false";
    case FieldDescriptor::CPPTYPE_ENUM: return s.pick<const char*>({"0", "1", "7", "-3", "\"RED\"", "\"GREEN\"", "\"BLUE\"", "\"NEG\""});
    case FieldDescriptor::CPPTYPE_STRING: return f->type() == FieldDescriptor::TYPE_BYTES ? mj::quote(mj::b64(s.any_bytes(12))) : mj::quote(gm::gen_text(s, 12));
    default: return depth > 4 ? "{\"id\":1}" : doc(s, f->message_type(), depth + 1, wrong);
    }
}
static std::string doc(Src& s, const Descriptor* d, int depth, int wrong) {
    std::string o = "{";
    int n = depth ? s.draw(3) : 1 + s.draw(6);
    bool first = true;
    for (int i = 0; i < n; ++i) {
        std::string name, v;
        if (s.chance(wrong / 3)) { name = s.pick<const char*>({"nope", "", "I32", "d ", "vtest.ext_int", "s\\u0000", "vtest.AllTypes"}); v = any_value(s, depth); }
        else {
            const FieldDescriptor* f = d->field(s.draw(d->field_count() - 1));
            name = f->name();
            if (f->is_repeated() && !s.chance(wrong / 2)) {
                v = "[";
                int k = s.draw(3);
                for (int j = 0; j < k; ++j) v += (j ? "," : "") + good_value(s, f, depth, wrong);
                v += "]";
            } else v = good_value(s, f, depth, wrong);
        }
        o += (first ? "\"" : ",\"") + name + "\":" + v;
        first = false;
    }
    return o + "}";
}

// ---- reference: what a document means for a message ----
enum Verdict { OK, REJECT, EITHER };     // EITHER: the text carries a number at the edge of what the reader keeps
static void worse(Verdict* a, Verdict b) { if (b == REJECT || *a == REJECT) *a = REJECT; else if (b == EITHER) *a = EITHER; }
static Verdict ref_msg(const mj::Val& v, Message* m);
static Verdict ref_value(const mj::Val& v, Message* m, const FieldDescriptor* f) {
    const Reflection* r = m->GetReflection();
    bool rep = f->is_repeated();
    int64_t i; uint64_t u;
#define PUT(N, X) do { if (rep) r->Add##N(m, f, X); else r->Set##N(m, f, X); } while (0)
    switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: if (v.t != mj::Val::NUM || !mj::as_i64(v.s, &i) || i < INT32_MIN || i > INT32_MAX) return REJECT; PUT(Int32, (int32)i); return OK;
    case FieldDescriptor::CPPTYPE_INT64: if (v.t != mj::Val::NUM || !mj::as_i64(v.s, &i)) return REJECT; PUT(Int64, i); return OK;
    case FieldDescriptor::CPPTYPE_UINT32: if (v.t != mj::Val::NUM || !mj::as_u64(v.s, &u) || u > UINT32_MAX) return REJECT; PUT(UInt32, (uint32)u); return OK;
    case FieldDescriptor::CPPTYPE_UINT64: if (v.t != mj::Val::NUM || !mj::as_u64(v.s, &u)) return REJECT; PUT(UInt64, u); return OK;
    case FieldDescriptor::CPPTYPE_DOUBLE: { if (v.t != mj::Val::NUM) return REJECT; double d = strtod(v.s.c_str(), 0); PUT(Double, d); return fabs(d) > 1e285 || (d != 0 && fabs(d) < 1e-285) ? EITHER : OK; }
    case FieldDescriptor::CPPTYPE_FLOAT: { if (v.t != mj::Val::NUM) return REJECT; double d = strtod(v.s.c_str(), 0); PUT(Float, (float)d); return fabs(d) > 1e38 || (d != 0 && fabs(d) < 1e-36) ? EITHER : OK; }
    case FieldDescriptor::CPPTYPE_BOOL: if (v.t != mj::Val::BOOL) return REJECT; PUT(Bool, v.b); return OK;
    case FieldDescriptor::CPPTYPE_ENUM: {
        const EnumValueDescriptor* ev = NULL;
        if (v.t == mj::Val::NUM) { if (!mj::as_i64(v.s, &i) || i < INT32_MIN || i > INT32_MAX) return REJECT; ev = f->enum_type()->FindValueByNumber((int)i); }
        else if (v.t == mj::Val::STR) { if (v.s.find('\0') != std::string::npos) return EITHER; ev = f->enum_type()->FindValueByName(v.s); }
        if (!ev) return REJECT;
        PUT(Enum, ev);
        return OK;
    }
    case FieldDescriptor::CPPTYPE_STRING:
        if (v.t != mj::Val::STR) return REJECT;
        if (f->type() == FieldDescriptor::TYPE_BYTES) {
            std::string raw;
            if (!mj::unb64(v.s, &raw)) {
                // '=' inside the text is not canonical; whether it is taken is not specified
                return v.s.size() % 4 == 0 && v.s.find('=') != std::string::npos ? EITHER : REJECT;
            }
            if (mj::b64(raw) != v.s) { PUT(String, raw); return EITHER; }   // stray bits in the last group
            PUT(String, raw);
        } else PUT(String, v.s);
        return OK;
    default: return ref_msg(v, rep ? r->AddMessage(m, f) : r->MutableMessage(m, f));
    }
#undef PUT
}
static Verdict ref_msg(const mj::Val& v, Message* m) {
    if (v.t != mj::Val::OBJ) return REJECT;
    Verdict res = OK;
    for (size_t i = 0; i < v.o.size(); ++i) {
        const std::string& k = v.o[i].first;
        if (k.find('\0') != std::string::npos) { res = res == REJECT ? REJECT : EITHER; continue; }
        const FieldDescriptor* f = m->GetDescriptor()->FindFieldByName(k);
        if (!f) f = m->GetReflection()->FindKnownExtensionByName(k);
        if (!f) return REJECT;
        const mj::Val& x = v.o[i].second;
        if (f->is_repeated()) {
            if (x.t != mj::Val::ARR) return REJECT;
            for (size_t j = 0; j < x.a.size(); ++j) { Verdict w = ref_value(x.a[j], m, f); worse(&res, w); if (w == REJECT) return REJECT; }
        } else { Verdict w = ref_value(x, m, f); worse(&res, w); if (w == REJECT) return REJECT; }
    }
    return res;
}
static bool huge_exponent(const mj::Val& v) {
    if (v.t == mj::Val::NUM) {
        if (v.s.size() > 300) return true;
        size_t e = v.s.find_first_of("eE");
        return e != std::string::npos && labs(strtol(v.s.c_str() + e + 1, 0, 10)) > 280;
    }
    for (auto& x : v.a) if (huge_exponent(x)) return true;
    for (auto& x : v.o) if (huge_exponent(x.second)) return true;
    return false;
}
static bool has_float_edge(const mj::Val& v) { (void)v; return false; }

static void judge(const std::string& text, Ctx& c, bool must_reject) {
    vtest::AllTypes got, want;
    std::string err;
    int r = json2pb(text, &got, err);
    mj::Val v;
    bool valid = mj::parse(text, &v) && (v.t == mj::Val::OBJ || v.t == mj::Val::ARR);
    if (must_reject) { PBT_CHECK(r != 0, "accepted broken text %s", show(text, 600).c_str()); }
    if (r != 0) PBT_CHECK(r < 0 && err.size(), "failure %d without an error text", r);
    if (!valid) { c.label(r ? "invalid-rejected" : "invalid-taken"); return; }
    Verdict w = ref_msg(v, &want);
    if (huge_exponent(v)) { c.label("edge-number"); return; }
    if (w == EITHER) { c.label("unspecified"); return; }
    if (w == REJECT) {
        PBT_CHECK(r != 0, "accepted a document that does not fit the message: %s", show(text, 900).c_str());
        c.label("unfit-rejected");
        return;
    }
    PBT_CHECK(r == 0, "rejected (%d %s) a document that fits: %s", r, err.c_str(), show(text, 900).c_str());
    std::string e = gm::same(want, got, 2e-7);
    PBT_CHECK(e.empty(), "document read differently: %s in %s", e.c_str(), show(text, 700).c_str());
    c.label("fit-accepted");
}

static void schema(Src& s, Ctx& c) {
    std::string text = doc(s, vtest::AllTypes::descriptor(), 0, s.pick<int>({0, 5, 20, 50}));
    c.note(show(text, 300));
    judge(text, c, false);
    c.nontrivial(text.size() > 20);
}
static void broken(Src& s, Ctx& c) {
    std::string text = doc(s, vtest::AllTypes::descriptor(), 0, s.pick<int>({0, 20}));
    bool must = false;
    switch (s.weighted({3, 5, 2, 2, 2})) {
    case 0: text.resize(s.draw(text.size() - 1)); must = true; c.label("truncated"); break;
    case 1: {
        int n = 1 + s.draw(4);
        for (int i = 0; i < n && text.size(); ++i) {
            size_t p = s.draw(text.size() - 1);
            static const char odd[] = "{}[]\":,\\eEu0-+.nt \n\x01\xff\x80";
            char ch = odd[s.draw(sizeof(odd) - 2)];
            switch (s.draw(3)) {
            case 0: text[p] = ch; break;
            case 1: text.insert(p, 1, ch); break;
            case 2: text.erase(p, 1 + s.logsize(8)); break;
            default: { size_t q = s.draw(text.size() - 1), k = s.logsize(20); text.insert(p, text.substr(q, k)); }
            }
        }
        break;
    }
    case 2: text += s.pick<std::string>({"}", "]", "x", "{}", ",", "\"", "0", std::string("\0", 1), std::string("\0}x", 3)}); must = true; c.label("trailing"); break;
    case 3: text = any_value(s, 0); break;
    default: text = s.any_bytes(60); break;
    }
    c.note(show(text, 300));
    judge(text, c, must);
    c.nontrivial(text.size() > 4);
}
// Nested as deep as a body of that size allows.
static void deep(Src& s, Ctx& c) {
    uint64_t n = 1ull << s.draw(21);
    n += s.draw(n);
    std::string text;
    int shape = s.draw(3);
    bool closed = s.chance(50);
    if (shape == 0) { text.assign(n, '['); if (closed) text.append(n, ']'); }
    else if (shape == 1) { for (uint64_t i = 0; i < n; ++i) text += "{\"self\":"; text += "{}"; if (closed) text.append(n, '}'); }
    else if (shape == 2) { text = "{\"rm\":"; for (uint64_t i = 0; i < n; ++i) text += "[{\"id\":1,\"kids\":"; text += "[]"; if (closed) { for (uint64_t i = 0; i < n; ++i) text += "}]"; text += "}"; } }
    else { text = "{\"s\":\"" + std::string(n, '[') + "\""; if (closed) text += "}"; }
    c.note(fmt("shape %d depth %llu closed %d", shape, (unsigned long long)n, closed));
    vtest::AllTypes m;
    std::string err;
    int r = json2pb(text, &m, err);
    if (r) PBT_CHECK(err.size() > 0, "failure without an error text");
    if (!closed) PBT_CHECK(r != 0, "accepted an unclosed document");
    if (closed && shape && n <= 50) PBT_CHECK(r == 0, "rejected nesting of %llu: %s", (unsigned long long)n, err.c_str());
    if (closed && shape == 3) { PBT_CHECK(r == 0, "rejected brackets inside a string: %s", err.c_str()); PBT_CHECK(m.s() == std::string(n, '['), "string changed"); }
    if (n > 10000) c.label("deeper-than-10000");
    c.nontrivial(n > 50);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C13";
    p.rule = "JSON documents generated from the message schema with out-of-range and fractional numbers, wrong types, unknown names, bad base64 and enum names, "
             "plus broken, truncated, mutated and deeply nested text; verdict and message compared with an independent reader. Non-trivial: a document of more than a few bytes.";
    p.subs = {{"schema", schema, 500000, 12000000}, {"broken", broken, 400000, 10000000}, {"deep", deep, 400, 4000}};
    p.quick_budget_s = 20;
    return run(argc, argv, p);
}

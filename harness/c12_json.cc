// C12: protobuf -> JSON text -> protobuf keeps the message.
#include <sofa/pbrpc/pbjson.h>
#include "pbt.h"
#include "gen_msg.h"
using namespace sofa::pbrpc;
using namespace pbt;

// Text carries floating point values with six significant digits.
static const double kRel = 6e-6;

static void roundtrip(Src& s, Ctx& c) {
    gm::Opt o;
    vtest::AllTypes m;
    gm::fill(s, &m, o);
    std::string text;
    bool prefix = s.chance(10);
    if (prefix) text = "kept:";
    pb2json(&m, text);
    if (prefix) { PBT_CHECK(text.compare(0, 5, "kept:") == 0, "output was not appended"); text.erase(0, 5); }
    int set = gm::count_set(m);
    c.note(fmt("%d fields %s", set, show(text, 160).c_str()));
    mj::Val v;
    PBT_CHECK(mj::parse(text, &v), "not valid JSON: %s", show(text, 800).c_str());
    std::string e = gm::matches(m, v, kRel);
    PBT_CHECK(e.empty(), "JSON says something else: %s", e.c_str());
    vtest::AllTypes back;
    std::string err;
    int r = json2pb(text, &back, err);
    PBT_CHECK(r == 0, "json2pb gave %d %s on the output of pb2json: %s", r, err.c_str(), show(text, 800).c_str());
    e = gm::same(m, back, kRel);
    PBT_CHECK(e.empty(), "round trip changed the message: %s", e.c_str());
    // the object form says the same as the text form, into a used allocator
    rapidjson::Document doc;
    rapidjson::Value* obj = pb2jsonobject(&m, doc.GetAllocator());
    std::string text2;
    json2string(obj, text2);
    PBT_CHECK(text2 == text, "pb2jsonobject differs from pb2json");
    vtest::AllTypes back2;
    r = jsonobject2pb(obj, &back2, err);
    delete obj;
    PBT_CHECK(r == 0, "jsonobject2pb: %s", err.c_str());
    // numbers in the object form are not rounded
    e = gm::same(m, back2, 0);
    PBT_CHECK(e.empty(), "object round trip changed the message: %s", e.c_str());
    if (m.has_y() || m.ry_size()) c.label("bytes");
    if (m.has_self()) c.label("nested-self");
    if (m.has_e() || m.re_size()) c.label("enum");
    for (auto& x : m.rs()) if (x.find('\0') != std::string::npos) c.label("nul-in-string");
    c.nontrivial(set >= 3);
}

// Text written by another producer: any member order, whitespace, escapes; unset members absent.
static void foreign(Src& s, Ctx& c) {
    gm::Opt o;
    vtest::AllTypes m;
    gm::fill(s, &m, o);
    if (s.chance(30)) {
        m.SetExtension(vtest::ext_int, (int)s.any_i64());
        if (s.chance(50)) m.SetExtension(vtest::ext_str, gm::gen_text(s, 20));
        for (int k = s.draw(3); k > 0; --k) m.AddExtension(vtest::ext_rep, s.any_i64());
        c.label("extension");
    }
    std::string text;
    gm::put_ws(s, &text);
    text += gm::write_json(s, m);
    gm::put_ws(s, &text);
    c.note(show(text, 200));
    vtest::AllTypes back;
    std::string err;
    int r = json2pb(text, &back, err);
    PBT_CHECK(r == 0, "json2pb gave %d (%s) for %s", r, err.c_str(), show(text, 900).c_str());
    std::string e = gm::same(m, back, 1e-12);
    if (e.size()) e = gm::same(m, back, 2e-7).empty() ? "" : e;     // float fields went through decimal text
    PBT_CHECK(e.empty(), "message differs: %s; text %s", e.c_str(), show(text, 600).c_str());
    c.nontrivial(gm::count_set(m) >= 3);
}

int main(int argc, char** argv) {
    Prop p;
    p.id = "C12";
    p.rule = "Generated messages over every field type, nested and repeated: library JSON output checked by an independent strict JSON reader and read back; "
             "and JSON written by an independent writer (member order, whitespace, escapes, enum names, extensions) read into a message. Non-trivial: at least three fields set.";
    p.subs = {{"roundtrip", roundtrip, 60000, 1500000}, {"foreign", foreign, 40000, 1000000}};
    p.quick_budget_s = 20;
    return run(argc, argv, p);
}

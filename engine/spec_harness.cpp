#include "spec_harness.h"
using namespace llvm;
static bool hasText(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static const char* KINDS[] = { "null", "boolean", "string", "number", "array", "object" };
static StrC anyText(const char* why) { StrC r; r.text = why; return r; }

void SpecHarness::init(State& s) { s.tokSet(-5, 1); }
int SpecHarness::entity(State& s, i64 id)
{
    for (auto& o : s.objs) if (o.second->kind == 2 && o.second->size == 0 && o.second->ooff == id) return o.first;
    throw Unmodelled { "the program names something that is not there" };
}
int SpecHarness::newEntity(State& s, i64 id, int tag)
{
    int e = s.newObj(0, 2);
    s.obj(e)->ooff = (int)id;
    s.obj(e)->tag = tag;
    return e;
}
// ---------------------------------------------------------------- numbers
// An integer text lies in one of these intervals (9 is "-0"); facts 601 and 602 are the first one and the one after the last that are
// still possible, 600 and 603 whether the text is an integer or a floating point number: 0 as a whole, 1 a part of it, 2 not at all.
static const __int128 K1 = 1;
static const __int128 LIMITS[] = { -(K1 << 63), -(K1 << 63) + 1, -(K1 << 31), -(K1 << 31) + 1, -32768, -32767, -128, -127, 0, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
    (K1 << 31) - 1, K1 << 31, (K1 << 32) - 1, K1 << 32, (K1 << 63) - 1, K1 << 63, (K1 << 64) - 1, K1 << 64 };
static const int INTERVALS = sizeof LIMITS / sizeof *LIMITS + 1, MINUS0 = 9;
bool intType(const std::string& t, bool& sign, int& bits)
{
    std::string b = t.compare(0, 9, "unsigned ") == 0 ? t.substr(9) : t.compare(0, 7, "signed ") == 0 ? t.substr(7) : t;
    sign = t.compare(0, 9, "unsigned ") != 0;
    if (t == "unsigned") { b = "int"; sign = false; }
    bits = b == "char" ? 8 : b == "short" ? 16 : b == "int" ? 32 : b == "long" || b == "long long" ? 64 : 0;
    return bits;
}
// the intervals of a type: from the first to before the last
void typeRange(bool sign, int bits, int& lo, int& hi)
{
    static const int S[] = { 7, 5, 3, 1 }, SE[] = { 12, 16, 20, 24 }, UE[] = { 14, 18, 22, 26 };
    int k = bits == 8 ? 0 : bits == 16 ? 1 : bits == 32 ? 2 : 3;
    lo = sign ? S[k] : MINUS0 + 1;
    hi = sign ? SE[k] : UE[k];
}
// where the integer e is: -1 below, 0 from lo to before hi, 1 above
int SpecHarness::interval(State& s, int e, int lo, int hi, const std::string& what)
{
    int a = (int)I->fact(s, e, 601, 0), b = (int)I->fact(s, e, 602, INTERVALS);
    std::vector<int> can;
    if (a < lo) can.push_back(-1);
    if (a < hi && b > lo) can.push_back(0);
    if (b > hi) can.push_back(1);
    int r = can.size() == 1 ? can[0] : can[I->choose(s, (int)can.size(), "the number is below, in or above " + what)];
    if (r < 0) b = std::min(b, lo);
    else if (r > 0) a = std::max(a, hi);
    else a = std::max(a, lo), b = std::min(b, hi);
    I->setFact(s, e, 601, a);
    I->setFact(s, e, 602, b);
    return r;
}
// 0 the whole text, 1 a part of it, 2 none; out of range: 3 the whole, 4 a part
int SpecHarness::numClass(State& s, int e, const std::string& type)
{
    if (s.objc(e)->tag == 2) return 2; // true, false
    bool sign;
    int bits;
    if (intType(type, sign, bits)) {
        if (I->fact(s, e, 600, -1) < 0 && I->fact(s, e, 603, -1) == 2) I->setFact(s, e, 600, 2);
        int syn = I->decide(s, e, 600, 3, "the text is an integer 0, starts with one 1, neither 2");
        if (syn == 2) return 2;
        int lo, hi;
        typeRange(sign, bits, lo, hi);
        int r = interval(s, e, lo, hi, type);
        if (r < 0 && !sign) return 2; // a minus sign is not read
        return (r ? 3 : 0) + syn;
    }
    if (type == "float" || type == "double" || type == "long double") {
        if (I->fact(s, e, 603, -1) < 0 && I->fact(s, e, 600, -1) == 0) I->setFact(s, e, 603, 0);
        int syn = I->decide(s, e, 603, 3, "the text is a floating point number 0, starts with one 1, neither 2");
        if (syn == 2) return 2;
        if (syn == 0 && I->fact(s, e, 600, -1) == 0) return 0;
        return (I->decide(s, e, type == "float" ? 604 : type == "double" ? 605 : 606, 2, "too large or small for " + type) ? 3 : 0) + syn;
    }
    static std::map<std::string, int> ids;
    int k = ids.emplace(type, (int)ids.size()).first->second;
    return I->decide(s, e, 200 + k, 5, "reading the text as " + type + " (0 works, 1 works for a part, 2 fails, 3 out of range, 4 out of range for a part)");
}
// does the number read as one type, stored in bits, have the value it has as another type?
static bool isNumberText(const Val& v) { return v.k == V_SZ && strC(v).k == S_OPQ && strC(v).text.compare(0, 10, "number as ") == 0; }
Val SpecHarness::numCompare(State& s, unsigned pred, const Val& v, const Val& k)
{
    bool sign;
    int bits;
    if (v.d || !k.isInt() || !intType(strC(v).text.substr(10), sign, bits)) return mkTop(1);
    auto P = (CmpInst::Predicate)pred;
    int e = strC(v).ent, w = v.w ? v.w : 64, lo, hi;
    typeRange(CmpInst::isSigned(P) || (CmpInst::isEquality(P) && sign), w, lo, hi);
    // only if the value survived whatever conversions there were
    if (I->fact(s, e, 601, 0) < lo || I->fact(s, e, 602, INTERVALS) > hi) return mkTop(1);
    __int128 c = CmpInst::isSigned(P) || (CmpInst::isEquality(P) && sign) ? (__int128)sext64(k.a, w) : (__int128)(u64)trunc64(k.a, w);
    if (CmpInst::isEquality(P)) {
        for (int i = (int)I->fact(s, e, 601, 0); i < (int)I->fact(s, e, 602, INTERVALS); i++) {
            bool below = i > 0 && c < LIMITS[i - 1] , above = i < INTERVALS - 1 && c >= LIMITS[i];
            if (i == MINUS0) { below = c != 0; above = false; }
            if (!below && !above) return mkTop(1);
        }
        return mkInt(1, pred == CmpInst::ICMP_NE);
    }
    // x < c for one of the limits
    bool le = P == CmpInst::ICMP_SLE || P == CmpInst::ICMP_ULE || P == CmpInst::ICMP_SGT || P == CmpInst::ICMP_UGT;
    bool neg = P == CmpInst::ICMP_SGT || P == CmpInst::ICMP_UGT || P == CmpInst::ICMP_SGE || P == CmpInst::ICMP_UGE;
    if (le) c++;
    int a = (int)I->fact(s, e, 601, 0), b = (int)I->fact(s, e, 602, INTERVALS);
    int all = 0, none = 0;
    for (int i = a; i < b; i++) {
        if (i == MINUS0) (c > 0 ? all : none)++;
        else if (i < INTERVALS - 1 && LIMITS[i] <= c) all++; // up to before the limit
        else if (i > 0 && LIMITS[i - 1] >= c) none++;
    }
    if (all == b - a) return mkInt(1, !neg);
    if (none == b - a) return mkInt(1, neg);
    for (int i = 0; i < INTERVALS - 1; i++) {
        if (LIMITS[i] != c || i == MINUS0) continue;
        int r = interval(s, e, 0, i + 1, "the constant");
        return mkInt(1, (r == 0) != neg);
    }
    return mkTop(1);
}
static int numBits(const std::string& type)
{
    bool sign;
    int bits;
    return intType(type, sign, bits) ? bits : type == "float" ? 32 : type == "double" ? 64 : type == "long double" ? 80 : 8;
}
Val SpecHarness::number(int e, const std::string& type, int w)
{
    StrC c;
    c.k = S_OPQ;
    c.ent = e;
    c.text = "number as " + type;
    Val v;
    v.k = V_SZ;
    v.w = (uint16_t)w;
    v.p = std::make_shared<StrC>(c);
    return v;
}
int SpecHarness::textEq(State& s, const StrC& x, const StrC& y)
{
    if (x.k == S_CONST && y.k == S_CONST) return x.text == y.text;
    if (x.k != S_OPQ && y.k == S_OPQ) return textEq(s, y, x);
    if (x.k != S_OPQ) return -1;
    if (y.k == S_OPQ) {
        if (x.text == "text" && y.text == "cut") return textEq(s, y, x);
        // what comes before the first NUL byte of a text that has one
        if (x.text == "cut" && y.text == "text" && x.ent == y.ent) return 0;
        if (x.text != y.text) return -1;
        if (x.ent == y.ent) return 1;
        if (x.text != "text") return -1;
        i64 t1 = s.objc(x.ent)->tag, t2 = s.objc(y.ent)->tag;
        if (t1 == 2 && t2 == 2) return I->decide(s, x.ent, 60, 2, "the boolean") == I->decide(s, y.ent, 60, 2, "the boolean");
        return I->entEqual(s, x.ent, y.ent);
    }
    if (y.k == S_CONST && x.text == "text") {
        i64 t = s.objc(x.ent)->tag;
        if (t == 2) {
            if (y.text != "true" && y.text != "false") return 0;
            return I->decide(s, x.ent, 60, 2, "the boolean") == (y.text == "true");
        }
        if (y.text.empty()) return I->isEmptyStr(s, x);
        if (t == 4 && y.text.find_first_of("0123456789") == std::string::npos) return 0;
        static std::map<std::string, int> known;
        int n = known.emplace(y.text, (int)known.size()).first->second;
        for (auto& o : known) if (o.second != n && I->fact(s, x.ent, 1000 + o.second, 0) == 1) return 0;
        if (I->fact(s, x.ent, 1000 + n, -1) >= 0) return (int)I->fact(s, x.ent, 1000 + n, 0);
        if (!I->sizeIs(s, x.ent, CmpInst::ICMP_EQ, (i64)y.text.size())) return 0;
        return I->decide(s, x.ent, 1000 + n, 2, "the text is \"" + y.text + "\"");
    }
    return -1;
}
StrC SpecHarness::appendByte(State& s, const StrC& c, const Val& b)
{
    StrC r = Spec::appendByte(s, c, b);
    if (r.k == S_ANY) r.nonempty = 1;
    return r;
}
StrC SpecHarness::appendStr(State& s, const StrC& c, const StrC& t) { return Spec::appendStr(s, c, t); }
StrC SpecHarness::text(State& s, const Val& p) { return I->strAt(s, p); }
// 1 type and content agree, 0 they do not, -1 unknown
int SpecHarness::consistent(State& s, const Val& p, std::string& why, int depth)
{
    auto& lay = I->lay;
    const Obj* o = s.objc((int)p.a);
    if (!o || o->dead) { why = "it is gone"; return 0; }
    auto content = [&](const Cell& x, int owner) {
        bool map = x.v.k == V_MAP;
        int off = x.off;
        ConC cc = conC(x.v);
        if (cc.k == C_SEQ && depth < 3)
            for (auto& g : cc.segs) {
                if (g.how != "elem") continue;
                int r = consistent(s, mkPtr(P_OBJ, g.id, map ? 32 : 0), why, depth + 1);
                if (r != 1) return r;
            }
        for (auto& e : s.objs)
            if (e.second->kind == 5 && e.second->owner == owner && e.second->ooff == off && e.second->tag && e.second->written && depth < 3) {
                int r = consistent(s, mkPtr(P_OBJ, e.first, map ? 32 : 0), why, depth + 1);
                if (r != 1) { why = "an element: " + why; return r; }
            }
        return 1;
    };
    for (auto& x : o->cells) if (x.off == p.b && (x.v.k == V_VEC || x.v.k == V_MAP)) return content(x, (int)p.a);
    Val t = cellGet(*o, (int)p.b + lay.tagOff, lay.tagSize), idx = cellGet(*o, (int)p.b + lay.idxOff, 1);
    if (t.k == V_UNDEF || idx.k == V_UNDEF) { why = "it is not constructed"; return 0; }
    if (t.k != V_INT || idx.k != V_INT) return -1;
    int kind = -1;
    for (int i = 0; i < 6; i++) if (I->kinds[KINDS[i]] == t.a) kind = i;
    if (kind < 0) { why = "it has the invalid type"; return 0; }
    if (kind == 0) return 1;
    if (kind < 4) {
        if (idx.a != I->altStr) { why = "its type is " + std::string(KINDS[kind]) + ", its content is not a text"; return 0; }
        Val v = cellGet(*o, (int)p.b + lay.varOff, 32);
        if (v.k != V_STR) { why = "its text is gone"; return 0; }
        auto& c = strC(v);
        if (kind == 1) {
            if (c.k == S_CONST && c.text != "true" && c.text != "false") { why = "a boolean with another text than true or false"; return 0; }
            if (c.k == S_OPQ && c.text == "text" && s.objc(c.ent)->tag != 2) { why = "a boolean with the text of something else"; return 0; }
        }
        if (kind == 3) {
            if (c.k == S_CONST && c.text.find_first_of("0123456789") == std::string::npos) { why = "a number with the text of none"; return 0; }
            if (c.k == S_OPQ && c.text == "text" && s.objc(c.ent)->tag != 4) { why = "a number with the text of something else"; return 0; }
        }
        return 1;
    }
    if (idx.a != (kind == 4 ? I->altArr : I->altObj)) { why = "its type is " + std::string(KINDS[kind]) + ", its content is not"; return 0; }
    Val q = cellGet(*o, (int)p.b + lay.varOff, 8);
    if (q.isPtr(P_NULL)) { why = std::string("its type is ") + KINDS[kind] + ", its content is gone"; return 0; }
    if (!q.isPtr(P_OBJ)) return -1;
    const Obj* c = s.objc((int)q.a);
    if (!c || c->dead) { why = "its content is gone"; return 0; }
    for (auto& x : c->cells) {
        if (x.v.k != (kind == 4 ? V_VEC : V_MAP)) continue;
        return content(x, (int)q.a);
    }
    why = "its content is not constructed";
    return 0;
}
// the objects that belong to the value at p
bool SpecHarness::collect(State& s, const Val& p, std::set<int>& out)
{
    const Obj* o = s.objc((int)p.a);
    if (!o) return true;
    for (auto& x : o->cells) {
        if (x.off < p.b || x.off >= p.b + I->lay.size || !x.v.isPtr(P_OBJ)) continue;
        if (!out.insert((int)x.v.a).second) continue;
        const Obj* c = s.objc((int)x.v.a);
        if (!c) continue;
        for (auto& y : c->cells)
            if (y.v.k == V_VEC || y.v.k == V_MAP)
                for (auto& g : conC(y.v).segs) if (g.how == "elem") { out.insert((int)g.id); collect(s, mkPtr(P_OBJ, g.id, y.v.k == V_MAP ? 32 : 0), out); }
    }
    return true;
}
void SpecHarness::finishThrow(State& s, const std::string& type)
{
    if (type.find("bad_alloc") != std::string::npos && s.tokGet(-5, 1) == 2) return;
    I->report(s, "throws", "ends with an exception: " + type);
}
bool SpecHarness::call(State& s, const std::string& n, const CallBase& cb, std::vector<Val>& a, Val& ret)
{
    auto num = [&](size_t i) -> i64 { Val v = I->concretize(s, a[i]); if (!v.isInt()) throw Unmodelled { "argument of " + n }; return sext64(v.a, v.w); };
    auto yes = [&](bool b) { ret = mkInt(1, b); return true; };
    auto tri = [&](int r) { ret = r < 0 ? mkTop(1) : mkInt(1, r); return true; };
    if (n == "nd_value") {
        i64 mask = num(1), id = num(2);
        std::vector<int> ks;
        for (int i = 0; i < 6; i++) if (mask >> i & 1) ks.push_back(i);
        int k = ks.size() == 1 ? ks[0] : ks[I->choose(s, (int)ks.size(), "type of value " + std::to_string(id))];
        int e = newEntity(s, id, 1 + k);
        I->objRef(s, a[0], false, "write");
        I->entityValue(s, (int)a[0].a, (int)a[0].b, k, e);
        return true;
    }
    if (n == "nd_array" || n == "nd_object") {
        bool arr = n == "nd_array";
        int e = newEntity(s, num(1), arr ? 5 : 6);
        I->objRef(s, a[0], false, "write");
        cellPut(*s.obj((int)a[0].a), (int)a[0].b, arr ? 24 : 48, mkCon(arr ? V_VEC : V_MAP, Interp::ghostContent(e)));
        return true;
    }
    if (n == "nd_string") {
        int e = newEntity(s, num(1), 3);
        StrC c;
        c.k = S_OPQ;
        c.text = "text";
        c.ent = e;
        I->putStr(s, a[0], c);
        return true;
    }
    if (n == "nd_number") {
        std::string type = I->cstr(s, a[2]).text;
        int e = newEntity(s, num(1), 4), bits = numBits(type), lo, hi;
        bool sign;
        if (intType(type, sign, bits)) {
            typeRange(sign, bits, lo, hi);
            I->setFact(s, e, 600, 0);
            I->setFact(s, e, 601, sign ? lo : MINUS0 + 1);
            I->setFact(s, e, 602, hi);
        }
        bits = numBits(type);
        I->store(s, a[0], number(e, type, bits), type == "long double" ? 10 : bits / 8);
        return true;
    }
    if (n == "is_finite") return yes(!I->decide(s, entity(s, num(0)), 700, 2, "the number is not finite"));
    if (n == "json_number") {
        StrC c = text(s, a[0]);
        if (c.k == S_OPQ) return c.text.find("decimal of number as ") != std::string::npos ? yes(true) : c.text == "no number" ? yes(false) : tri(-1);
        if (c.k != S_CONST) return tri(-1);
        const std::string& t = c.text;
        size_t i = !t.empty() && t[0] == '-';
        auto digits = [&] { size_t k = i; while (i < t.size() && isdigit((unsigned char)t[i])) i++; return i > k; };
        bool ok = i < t.size() && (t[i] == '0' ? (i++, true) : digits());
        if (ok && i < t.size() && t[i] == '.') { i++; ok = digits(); }
        if (ok && i < t.size() && (t[i] == 'e' || t[i] == 'E')) { i++; if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++; ok = digits(); }
        return yes(ok && i == t.size());
    }
    if (n == "nd_bool") return yes(I->choose(s, 2, "a boolean"));
    if (n == "nd_size") { ret = mkTok(64, num(0), 7); return true; }
    if (n == "kind_of") { ret = mkInt(32, (u64)(s.objc(entity(s, num(0)))->tag - 1)); return true; }
    if (n == "must") {
        StrC what = I->cstr(s, a[1]);
        musts++;
        rows.insert(what.text);
        bool c;
        if (a[0].k == V_INT) c = a[0].a & 1;
        else { undecided++; I->unmodelled.insert("not decided: " + what.text); return true; }
        if (!c) { I->report(s, "must", what.text); throw Kill {}; }
        return true;
    }
    if (n == "same_value") return tri(I->isEntity(s, a[0], entity(s, num(1))));
    if (n == "same_array" || n == "same_object") {
        VK k = n == "same_array" ? V_VEC : V_MAP;
        return tri(I->holds(s, a[0], k, { { entity(s, num(1)), "all", "" } }));
    }
    if (n == "is_concat") return tri(I->holds(s, a[0], V_VEC, { { entity(s, num(1)), "all", "" }, { entity(s, num(2)), "all", "" } }));
    if (n == "is_merge") {
        int x = entity(s, num(1)), y = entity(s, num(2));
        int r = I->holds(s, a[0], V_MAP, { { x, "all", "" }, { y, "over", "" } });
        if (r) return tri(r);
        return tri(I->holds(s, a[0], V_MAP, { { y, "all", "" }, { x, "under", "" } }));
    }
    if (n == "same_string") {
        StrC c = I->strAt(s, a[0]), want;
        want.k = S_OPQ;
        want.text = "text";
        want.ent = entity(s, num(1));
        return tri(textEq(s, c, want));
    }
    if (n == "same_view") {
        StrC c = I->textOf(s, I->load(s, I->ptrAdd(s, a[0], 8), 8, true), I->load(s, a[0], 8, false));
        StrC want;
        want.k = S_OPQ;
        want.text = "text";
        want.ent = entity(s, num(1));
        return tri(textEq(s, c, want));
    }
    if (n == "is_number") {
        Val v = cellGet(I->objRef(s, a[0], false, "use"), (int)a[0].b, 0);
        Obj& o = I->objRef(s, a[0], false, "use");
        for (auto& c : o.cells) if (c.off == a[0].b) v = c.v;
        std::string type = I->cstr(s, a[2]).text;
        int e = entity(s, num(1));
        if (!isNumberText(v)) return tri(v.k == V_TOP ? -1 : 0);
        if (v.d || strC(v).ent != e) return yes(false);
        if (strC(v).text == "number as " + type && (int)v.w == numBits(type)) return yes(true);
        bool sign, sign2;
        int bits, bits2, lo, hi;
        std::string from = strC(v).text.substr(10);
        if (!intType(type, sign, bits) || !intType(from, sign2, bits2)) return yes(false);
        typeRange(sign, bits, lo, hi);
        return yes(v.w == bits && numClass(s, e, from) == 0 && interval(s, e, lo, hi, type) == 0);
    }
    if (n == "readable") {
        int e = entity(s, num(0));
        if (s.objc(e)->tag != 4 && s.objc(e)->tag != 3) return yes(false);
        return yes(numClass(s, e, I->cstr(s, a[1]).text) == 0);
    }
    if (n == "is_elem" || n == "is_member") {
        int g = entity(s, num(1));
        bool el = n == "is_elem";
        StrC key;
        if (!el) { key.k = S_OPQ; key.text = "text"; key.ent = entity(s, num(2)); }
        int id = el ? I->elementEntity(s, g, a[2].k == V_TOK ? IDX_TOK + a[2].a : num(2), nullptr) : I->elementEntity(s, g, IDX_KEY, &key);
        return tri(I->isEntity(s, a[0], id));
    }
    if (n == "in_range") {
        int g = entity(s, num(0));
        if (a[1].k == V_TOK) return yes(I->tokBelow(s, g, a[1]));
        return yes(I->sizeIs(s, g, CmpInst::ICMP_UGT, num(1)));
    }
    if (n == "has_size") return yes(I->sizeIs(s, entity(s, num(0)), CmpInst::ICMP_EQ, num(1)));
    if (n == "is_empty") return yes(I->isEmptyEntity(s, entity(s, num(0))));
    if (n == "has_key") {
        int g = entity(s, num(0));
        if (I->fact(s, g, 2, 1) == 0) return yes(false);
        StrC key;
        key.k = S_OPQ;
        key.text = "text";
        key.ent = entity(s, num(1));
        int id = I->elementEntity(s, g, IDX_KEY, &key);
        if (!s.objc(id)->est) {
            int here = I->choose(s, 2, "the member is there");
            if (here && I->fact(s, g, 1, 0) == 0) I->setFact(s, g, 1, 1);
            s.obj(id)->est = here ? 1 : 2;
        }
        return yes(s.objc(id)->est == 1);
    }
    if (n == "equal_content") {
        int g = entity(s, num(0)), h = entity(s, num(1));
        i64 t = s.objc(g)->tag;
        if (t != s.objc(h)->tag) return yes(false);
        if (t == 1) return yes(true);
        if (t == 2) return yes(I->decide(s, g, 60, 2, "the boolean") == I->decide(s, h, 60, 2, "the boolean"));
        return yes(I->entEqual(s, g, h) == 1);
    }
    if (n == "consistent") {
        std::string why;
        int r = consistent(s, a[0], why, 0);
        if (r < 0) { ret = mkTop(1); return true; }
        if (!r) I->report(s, "must", "type and content of a value do not agree: " + why);
        return yes(r);
    }
    if (n == "apart") {
        std::set<int> x, y;
        collect(s, a[0], x);
        collect(s, a[1], y);
        for (int o : x) if (y.count(o)) return yes(false);
        return yes(true);
    }
    if (n == "freeze" || n == "thaw") {
        std::set<int> all { (int)a[0].a };
        collect(s, a[0], all);
        for (auto& o : s.objs)
            if (o.second->kind == 5 && all.count(o.second->owner)) { all.insert(o.first); collect(s, mkPtr(P_OBJ, o.first, o.second->isMap ? 32 : 0), all); }
        for (int x : all) if (Obj* o = s.obj(x)) o->frozen = n == "freeze";
        s.tokSet(-6, n == "freeze");
        return true;
    }
    if (n == "failing") { s.tokSet(-5, num(0) ? (s.tokGet(-5, 1) == 2 ? 2 : 0) : s.tokGet(-5, 1) == 2 ? 2 : 1); return true; }
    if (n == "allocation_failed") return yes(s.tokGet(-5, 1) == 2);
    // ---- the library
    const Function* F = cb.getCalledFunction();
    if (!F) return false;
    FnInfo* f = I->info(F);
    const std::string& D = f->dem;
    bool views = a.size() == 4 && (f->base == "operator==" || f->base == "operator!=") && a[1].k == V_PTR && a[3].k == V_PTR && F->getArg(0)->getType()->isIntegerTy(64) && F->getArg(2)->getType()->isIntegerTy(64) && hasText(D, "SV");
    if (views || starts(n, "std::string operator")) {
        // the parameters are texts or literals
        auto arg = [&](size_t i) -> StrC { return views ? I->textOf(s, a[2 * i + 1], a[2 * i]) : a[i].isPtr(P_OBJ) ? I->strAt(s, a[i]) : I->cstr(s, a[i]); };
        StrC x = arg(0), y = arg(1);
        int q = textEq(s, x, y);
        std::string op = views ? f->base : n.substr(12);
        if (op != "operator==" && op != "operator!=") return false;
        if (q < 0) q = x.k == S_ANY || y.k == S_ANY || x.k == S_OPQ ? I->choose(s, 2, "texts are equal") : I->guess(s, 2, "texts are equal");
        return yes((q == 1) == (op == "operator=="));
    }
    if (numbers(s, *f, a, ret)) return true;
    if (f->base == "append_escaped_string" && a.size() >= 2) {
        StrC c = I->strAt(s, a[0]);
        c = anyText("serialised text");
        c.nonempty = -1;
        I->putStr(s, a[0], c);
        return true;
    }
    if (f->base == "from_chars" && (hasText(D, "std::from_chars<") || hasText(D, "std::from_chars("))) {
        size_t from = D.rfind('('), to = D.rfind("char const*, char const*, ");
        if (from == std::string::npos || to == std::string::npos) return false;
        std::string type = D.substr(to + 26);
        type = type.substr(0, type.find('&'));
        StrC c = I->textRange(s, a[0], a[1]);
        {
            bool sign;
            int bits;
            bool decimal = a.size() < 4 || (a[3].isInt() && a[3].a == 10);
            bool real = type == "float" || type == "double" || type == "long double";
            if (real && c.k == S_OPQ && (a.size() < 4 || (a[3].isInt() && a[3].a == 3)) && c.text.find("decimal of number as ") != std::string::npos) {
                // enough digits were written, or another number may be read
                std::string n = c.text.compare(0, 2, "in") == 0 || c.text != "decimal of number as " + type ? "inexact " : "";
                Val v = number(c.ent, type, numBits(type));
                StrC x = strC(v);
                x.text = n + x.text;
                v.p = std::make_shared<StrC>(x);
                I->store(s, a[2], v, numBits(type) / 8);
                ret = mkAgg({ a[1], mkInt(32, 0) });
                return true;
            }
            if (c.k == S_OPQ && decimal && !real && c.text.compare(0, 28, "inexact decimal of number as") == 0) {
                // of another number, at least for some: if it can be read it is not the one that was meant
                Val v = number(c.ent, type, numBits(type));
                StrC x = strC(v);
                x.text = "inexact " + x.text;
                v.p = std::make_shared<StrC>(x);
                I->store(s, a[2], v, numBits(type) / 8);
                ret = mkAgg({ a[1], mkInt(32, 0) });
                return true;
            }
            if (c.k == S_OPQ && decimal && c.text == "decimal of number as " + type) {
                I->store(s, a[2], number(c.ent, type, numBits(type)), numBits(type) / 8);
                ret = mkAgg({ a[1], mkInt(32, 0) });
                return true;
            }
            if (c.k == S_CONST && decimal && intType(type, sign, bits)) {
                const std::string& t = c.text;
                size_t i = 0;
                bool neg = sign && i < t.size() && t[i] == '-', big = false;
                if (neg) i++;
                size_t from = i;
                unsigned __int128 m = 0, top = ((unsigned __int128)1 << (sign ? bits - 1 : bits)) - (neg ? 0 : 1);
                for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; i++) {
                    m = m * 10 + (t[i] - '0');
                    if (m > top) big = true, m = top;
                }
                bool none = i == from;
                if (none) i = 0;
                if (!none && !big) I->store(s, a[2], mkInt(bits, neg ? (u64)0 - (u64)m : (u64)m), bits / 8);
                Val e = i == t.size() ? a[1] : I->ptrAdd(s, a[0], (i64)i);
                ret = mkAgg({ e, mkInt(32, none ? 22 : big ? 34 : 0) });
                return true;
            }
        }
        if (c.k != S_OPQ || c.text != "text") throw Unmodelled { D + " of " + c.text };
        std::string how;
        for (size_t i = 3; i < a.size(); i++) {
            if (!a[i].isInt()) throw Unmodelled { "base or format of " + D };
            bool floating = type == "float" || type == "double" || type == "long double";
            if (a[i].a != (floating ? 3 : 10)) how = (floating ? " in format " : " in base ") + std::to_string(a[i].a);
        }
        int bytes = numBits(type) / 8;
        type += how;
        int cl = numClass(s, c.ent, type);
        if (cl < 2) I->store(s, a[2], number(c.ent, type + (cl ? ", a part of the text" : ""), bytes * 8), bytes);
        Val e = a[1];
        if (cl == 1 || cl == 4) e.c = ENDPOS - 1;
        if (cl == 2) e = a[0], e.c = e.isPtr(P_SD) ? ENDPOS - 2 : e.c;
        ret = mkAgg({ e, mkInt(32, cl < 2 ? 0 : cl == 2 ? 22 : 34) });
        return true;
    }
    return false;
}

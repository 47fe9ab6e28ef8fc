// Numbers as text: what a string stream in some format writes of a number that is not known.
#include "spec_harness.h"
#include "llvm/IR/Instructions.h"
using namespace llvm;

enum { FIXED = 4, HEX = 8, OCT = 64, SCIENTIFIC = 256, FLOATFIELD = 260, SHOWBASE = 512, SHOWPOINT = 1024, SHOWPOS = 2048 };
enum { AT_FLAGS = 8, AT_PRECISION = 16, AT_WIDTH = 24, AT_TEXT = 32 }; // where a stream keeps them here
void typeRange(bool sign, int bits, int& lo, int& hi);
bool intType(const std::string& t, bool& sign, int& bits);
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
bool isNumber(const Val& v) { return v.k == V_SZ && strC(v).k == S_OPQ && strC(v).text.find("number as ") != std::string::npos; }
static std::string typeOf(const std::string& t) { return t.substr(t.find("number as ") + 10); }
static bool isFloat(const std::string& t) { return t == "float" || t == "double" || t == "long double"; }

// the text of the number that v is, in the format of printf or of a stream
static StrC formatted(Interp* I, State& s, const Val& v, i64 flags, i64 prec)
{
    const StrC& c = strC(v);
    StrC r;
    r.k = S_OPQ;
    r.ent = c.ent;
    r.nonempty = 1;
    bool exact = c.text.compare(0, 10, "number as ") == 0;
    std::string type = typeOf(c.text);
    if (isFloat(type)) {
        if (I->decide(s, c.ent, 700, 2, "the number is not finite")) {
            StrC k;
            k.k = S_CONST;
            k.text = "nan";
            return k;
        }
        i64 md = type == "float" ? 9 : type == "double" ? 17 : 21, ff = flags & FLOATFIELD;
        if (ff == FLOATFIELD || (flags & SHOWPOS) || ((flags & SHOWPOINT) && (ff == 0 || prec == 0))) { r.text = "no number"; return r; }
        if (prec < 0) prec = 6;
        if (ff == FIXED ? prec < 1100 : ff == SCIENTIFIC ? prec < md - 1 : prec < md) exact = false;
    }
    else if (v.d || (flags & (HEX | OCT)) || ((flags & SHOWPOS) && type.compare(0, 8, "unsigned"))) { r.text = "no number"; return r; }
    r.text = (exact ? "decimal of number as " : "inexact decimal of number as ") + type;
    return r;
}
bool SpecHarness::numbers(State& s, FnInfo& f, std::vector<Val>& a, Val& ret)
{
    const std::string &B = f.base, &C = f.cls, &D = f.dem;
    if (D.find("std::locale::") != std::string::npos && C == "std::locale") {
        if (B == "classic") { ret = mkPtr(P_TOP, 1); return true; }
        if (B == "locale" || B == "~locale") return true;
    }
    if (starts(D, "std::__cxx11::to_string(") && a.size() == 2 && isNumber(a[1]) && isFloat(typeOf(strC(a[1]).text))) {
        I->putStr(s, a[0], formatted(I, s, a[1], FIXED, 6));
        return true;
    }
    if (starts(D, "std::__cxx11::to_string(") && a.size() == 2 && isNumber(a[1]) && !a[1].d && !isFloat(typeOf(strC(a[1]).text))) {
        std::string from = typeOf(strC(a[1]).text), to = D.substr(24, D.rfind(')') - 24);
        bool sf, st;
        int bf, bt;
        if (from == to || !intType(from, sf, bf) || !intType(to, st, bt)) return false;
        StrC r;
        r.k = S_OPQ;
        r.ent = strC(a[1]).ent;
        r.nonempty = 1;
        bool same = strC(a[1]).text.compare(0, 2, "in") && (int)a[1].w >= bf && (sf == st ? bt >= bf : !sf && bt > bf);
        int lo, hi;
        typeRange(st, bt, lo, hi);
        // (or it has been found to be in range)
        if (strC(a[1]).text.compare(0, 2, "in") && I->fact(s, r.ent, 601, -1) >= lo && I->fact(s, r.ent, 602, 1000) <= hi) same = true;
        r.text = (same ? "decimal of number as " : "inexact decimal of number as ") + from;
        I->putStr(s, a[0], r);
        return true;
    }
    auto mine = [&](const Val& v) {
        const Obj* o = v.isPtr(P_OBJ) && v.b == 0 ? s.objc((int)v.a) : nullptr;
        return o && cellGet(*o, AT_FLAGS, 8).isInt() && cellGet(*o, AT_TEXT, 32).k == V_STR && cellGet(*o, 0, 8).isPtr(P_OBJ);
    };
    if (B == "basic_ostringstream" && !a.empty() && a[0].isPtr(P_OBJ) && a[0].b == 0) {
        if (f.params != "()") return false;
        int t = s.newObj(64, 2); // lets the virtual base be found
        cellPut(*s.obj(t), 8, 8, mkInt(64, 0));
        Obj& o = *s.obj((int)a[0].a);
        cellPut(o, 0, 8, mkPtr(P_OBJ, t, 32));
        cellPut(o, AT_FLAGS, 8, mkInt(64, 4098));
        cellPut(o, AT_PRECISION, 8, mkInt(64, 6));
        cellPut(o, AT_WIDTH, 8, mkInt(64, 0));
        StrC c;
        c.k = S_CONST;
        I->putStr(s, mkPtr(P_OBJ, a[0].a, AT_TEXT), c);
        return true;
    }
    int k = -1;
    for (int i = 0; i < (int)a.size() && i < 2 && k < 0; i++) if (mine(a[i])) k = i;
    if (k < 0) return false;
    Val self = a[k];
    auto get = [&](int at) { return cellGet(*s.objc((int)self.a), at, 8); };
    auto put = [&](int at, const Val& v) { cellPut(*s.obj((int)self.a), at, 8, v.isInt() ? mkInt(64, (u64)sext64(v.a, v.w)) : v); };
    auto known = [&](size_t i) { if (i >= a.size() || !a[i].isInt()) throw Unmodelled { D }; return sext64(a[i].a, a[i].w); };
    if (B == "~basic_ostringstream") { s.obj((int)self.a)->cells.clear(); return true; }
    if (B == "imbue" || B == "getloc") return true;
    if (B == "precision" || B == "width") {
        int at = B == "width" ? AT_WIDTH : AT_PRECISION;
        Val old = get(at);
        if (f.params != "()" && f.params != "() const") put(at, mkInt(64, (u64)known(k + 1)));
        ret = old;
        return true;
    }
    if (B == "flags" || B == "setf" || B == "unsetf") {
        i64 old = (i64)get(AT_FLAGS).a, x = (size_t)k + 1 < a.size() ? known(k + 1) : 0, now = old;
        if (B == "flags") now = (size_t)k + 1 < a.size() ? x : old;
        else if (B == "unsetf") now = old & ~x;
        else if ((size_t)k + 2 < a.size()) now = (old & ~known(k + 2)) | (x & known(k + 2));
        else now = old | x;
        put(AT_FLAGS, mkInt(64, (u64)now));
        ret = mkInt(32, (u64)old);
        return true;
    }
    if (B == "str" && k == 1 && a.size() == 2) { I->putStr(s, a[0], I->strAt(s, mkPtr(P_OBJ, self.a, AT_TEXT))); return true; }
    if (B == "good" || B == "fail" || B == "bad" || B == "operator!") { ret = mkInt(1, B == "good"); return true; }
    if (B == "operator<<" && k == 0 && a.size() == 2) {
        if (isNumber(a[1])) {
            if (get(AT_WIDTH).a) throw Unmodelled { "a padded number" };
            Val at = mkPtr(P_OBJ, self.a, AT_TEXT);
            StrC c = I->strAt(s, at), n = formatted(I, s, a[1], (i64)get(AT_FLAGS).a, (i64)get(AT_PRECISION).a);
            if (!(c.k == S_CONST && c.text.empty())) throw Unmodelled { "more than a number is written" };
            I->putStr(s, at, n);
            ret = self;
            return true;
        }
        if (a[1].k == V_PTR && a[1].pk == P_FUNC) return false; // a manipulator
        if (f.params.find("_Set") != std::string::npos) return false;
        throw Unmodelled { D };
    }
    if (f.F->isDeclaration()) throw Unmodelled { D };
    return false;
}

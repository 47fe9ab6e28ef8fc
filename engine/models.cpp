// What the library functions do, in terms of the abstract contents of strings and containers.
#include "interp.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;

static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }

// ---------------------------------------------------------------- layout of json::value
void Interp::findLayout()
{
    auto* vt = StructType::getTypeByName(M.getContext(), "class.json::value");
    if (vt && !vt->isOpaque()) {
        auto* sl = DL.getStructLayout(vt);
        lay.size = (int)DL.getTypeAllocSize(vt);
        for (unsigned i = 0; i < vt->getNumElements(); i++) {
            Type* e = vt->getElementType(i);
            if (e->isIntegerTy() && !lay.tagSize) { lay.tagOff = (int)sl->getElementOffset(i); lay.tagSize = (int)DL.getTypeStoreSize(e); }
            if (auto* st = dyn_cast<StructType>(e))
                if (st->hasName() && st->getName().starts_with("class.std::variant")) {
                    lay.varOff = (int)sl->getElementOffset(i);
                    int off = lay.varOff;
                    Type* t = st;
                    while (auto* x = dyn_cast<StructType>(t)) {
                        if (x->hasName() && x->getName().contains("_Variant_storage")) { lay.idxOff = off + (int)DL.getStructLayout(x)->getElementOffset(1); lay.ok = true; break; }
                        off += (int)DL.getStructLayout(x)->getElementOffset(0);
                        t = x->getElementType(0);
                    }
                }
        }
    }
    for (auto& g : M.globals()) {
        if (!g.getName().starts_with("kind_") || !g.hasInitializer()) continue;
        if (auto* c = dyn_cast<ConstantInt>(g.getInitializer())) kinds[g.getName().str().substr(5)] = (int)c->getZExtValue();
    }
}

// ---------------------------------------------------------------- strings
StrC Interp::strAt(State& s, const Val& p)
{
    if (p.isPtr(P_GLOB) && globs[p.a]->isConstant()) throw Unmodelled { "constant string object" };
    Obj& o = objRef(s, p, false, "use");
    Val v = cellGet(o, (int)p.b, 32);
    if (v.k != V_STR) {
        bool any = false;
        for (auto& c : o.cells) if (c.off < p.b + 32 && p.b < c.off + c.size) any = true;
        if (!any && o.kind != 4) throw Bug { "undefined", "uses a string that is not constructed" };
        if (getenv("JSONAI_DEBUG")) fprintf(stderr, "NOSTR obj %lld off %lld\n%s", (long long)p.a, (long long)p.b, dump(s).c_str());
        throw Unmodelled { "memory that holds no string" };
    }
    return strC(v);
}
void Interp::putStr(State& s, const Val& p, const StrC& c)
{
    Obj& o = objRef(s, p, true, "write");
    if (p.b + 32 > o.size) throw Bug { "undefined", "write outside an object" };
    cellPut(o, (int)p.b, 32, mkStr(c));
}
bool Interp::isEmptyStr(State& s, const StrC& c)
{
    switch (c.k) {
    case S_CONST: return c.text.empty();
    case S_BYTES: return false;
    case S_RAW:
    case S_TRANS: return c.p == c.q && c.d == 0;
    default: break;
    }
    if (c.nonempty >= 0) return !c.nonempty;
    if (c.k == S_OPQ && c.ent && s.objc(c.ent)) {
        if (c.text == "text") { i64 t = s.objc(c.ent)->tag; return t == 2 || t == 4 ? false : isEmptyEntity(s, c.ent); }
        if (c.text == "name") return decide(s, c.ent, 50, 2, "the name is empty");
        return choose(s, 2, "text is empty");
    }
    if (c.k == S_INPUT) {
        const Buf* b = s.bufc(c.buf);
        if (b->base > 0 || !b->win.empty() || b->rmin > 0) return false;
        if (b->rmax == 0) return true;
        throw SplitRem { c.buf, b->base + (i64)b->win.size() };
    }
    bool known;
    if ((c.k == S_CAT || c.k == S_OUT) && spec->emptyText(s, c, known)) return known;
    if (explicitElems) return choose(s, 2, "text is empty");
    return guess(s, 2, "text is empty");
}
ConC Interp::conAt(State& s, const Val& p, VK k)
{
    int n = k == V_VEC ? 24 : 48;
    Obj& o = objRef(s, p, false, "use");
    Val v = cellGet(o, (int)p.b, n);
    if (v.k != k) {
        bool any = false;
        for (auto& c : o.cells) if (c.off < p.b + n && p.b < c.off + c.size) any = true;
        if (!any && o.kind != 4) throw Bug { "undefined", "uses a container that is not constructed" };
        throw Unmodelled { "memory that holds no container" };
    }
    return conC(v);
}
void Interp::putCon(State& s, const Val& p, VK k, const ConC& c)
{
    Obj& o = objRef(s, p, true, "write");
    int n = k == V_VEC ? 24 : 48;
    if (p.b + n > o.size) throw Bug { "undefined", "write outside an object" };
    cellPut(o, (int)p.b, n, mkCon(k, c));
}
void Interp::putConQuiet(State& s, const Val& p, VK k, const ConC& c)
{
    Obj& o = objRef(s, p, false, "use");
    bool w = o.written, f = o.frozen;
    o.frozen = false;
    putCon(s, p, k, c);
    s.obj((int)p.a)->written = w;
    s.obj((int)p.a)->frozen = f;
}
bool Interp::isEmptyCon(State& s, const ConC& c)
{
    if (c.k == C_EMPTY) return true;
    if (c.nonempty >= 0) return !c.nonempty;
    if (c.k == C_SEQ) {
        if (c.part == 2) return false;
        for (auto& g : c.segs) if (g.how == "elem" || !isEmptyEntity(s, (int)g.id)) return false;
        return true;
    }
    if (c.k == C_BUILT) return false;
    return explicitElems ? choose(s, 2, "container is empty") : guess(s, 2, "container is empty");
}
static StrC cst(std::string t) { StrC s; s.k = S_CONST; s.text = std::move(t); return s; }
static StrC any(std::string why = "") { StrC s; s.text = std::move(why); return s; }
static StrC partOf(const StrC& c)
{
    StrC r = any("only a part of a text");
    r.d = c.k == S_RAW || c.k == S_TRANS || c.k == S_DEN; // not the whole
    return r;
}

static std::array<Bit, 8> byteBits(int ch) { std::array<Bit, 8> y; for (int k = 0; k < 8; k++) y[k] = BC(ch >> k & 1); return y; }
StrC Interp::cstr(State& s, const Val& p)
{
    if (p.isPtr(P_GLOB)) {
        std::string r;
        for (i64 i = 0;; i++) {
            Val v = globalRead(s, (int)p.a, p.b + i, 1, false);
            if (v.k != V_INT) return any();
            if (v.a == 0) break;
            r += (char)v.a;
        }
        return cst(r);
    }
    if (p.isPtr(P_SD) && p.c == 0) {
        StrC c = strAt(s, mkPtr(P_OBJ, p.a, p.b));
        if (c.k == S_CONST) return cst(c.text.substr(0, c.text.find('\0')));
        // up to the first NUL byte
        if (explicitElems && c.k == S_OPQ && c.ent && s.objc(c.ent) && (c.text == "name" || (c.text == "text" && s.objc(c.ent)->tag != 2 && s.objc(c.ent)->tag != 4)) && !isEmptyStr(s, c)
            && decide(s, c.ent, c.text == "name" ? 501 : 500, 2, "the text has a NUL byte in it")) c.text = "cut";
        return c;
    }
    if (p.isPtr(P_NULL)) throw Bug { "undefined", "a null pointer used as text" };
    if (p.isPtr(P_OBJ)) {
        // a character array
        std::string r;
        for (i64 i = 0;; i++) {
            Val v = concretize(s, load(s, ptrAdd(s, p, i), 1, false));
            if (v.k != V_INT) return any();
            if (v.a == 0) break;
            r += (char)v.a;
        }
        return cst(r);
    }
    return any();
}
StrC Interp::textRange(State& s, const Val& b, const Val& e)
{
    if (b.isPtr(P_BUF) && e.isPtr(P_BUF) && b.a == e.a) {
        StrC r;
        r.buf = (int)b.a;
        i64 q = e.b;
        const Buf* u = s.bufc((int)b.a);
        if (isEndPos(q) && u->rmax >= 0 && u->rmin == u->rmax) q = u->base + (i64)u->win.size() + u->rmin + (q - ENDPOS);
        if (b.b == 0 && isEndPos(e.b) && !u->ctx) { r.k = S_INPUT; return r; }
        r.k = S_RAW;
        r.p = b.b;
        r.q = q;
        return r;
    }
    if (b.isPtr(P_SD) && e.isPtr(P_SD) && b.a == e.a && b.b == e.b) {
        StrC c = strAt(s, mkPtr(P_OBJ, b.a, b.b));
        if (c.k == S_CONST) {
            i64 n = (i64)c.text.size();
            i64 x = isEndPos(b.c) ? n + (b.c - ENDPOS) : b.c, y = isEndPos(e.c) ? n + (e.c - ENDPOS) : e.c;
            if (x < 0 || y < x || y > n) throw Bug { "undefined", "bad range of a string" };
            return cst(c.text.substr(x, y - x));
        }
        if (b.c == 0 && e.c == ENDPOS) return c;
        if (c.k == S_BYTES) {
            i64 n = (i64)c.bytes.size();
            i64 x = isEndPos(b.c) ? n + (b.c - ENDPOS) : b.c, y = isEndPos(e.c) ? n + (e.c - ENDPOS) : e.c;
            if (x < 0 || y < x || y > n) throw Bug { "undefined", "bad range of a string" };
            if (x == y) return cst("");
            c.bytes = { c.bytes.begin() + x, c.bytes.begin() + y };
            return c;
        }
        if (b.c == e.c) return cst("");
        return any("part of a text");
    }
    if (b.isPtr(P_GLOB) && e.isPtr(P_GLOB) && b.a == e.a) {
        std::string r;
        for (i64 i = b.b; i < e.b; i++) { Val v = globalRead(s, (int)b.a, i, 1, false); if (v.k != V_INT) return any(); r += (char)v.a; }
        return cst(r);
    }
    if (b.isPtr(P_OBJ) && e.isPtr(P_OBJ) && b.a == e.a) {
        std::string r;
        StrC by;
        by.k = S_BYTES;
        by.text = "computed bytes";
        for (i64 i = b.b; i < e.b; i++) {
            Val v = load(s, mkPtr(P_OBJ, b.a, i), 1, false);
            if ((v.k != V_INT && v.k != V_BITS) || e.b - b.b > 16) return any("computed text");
            auto q = bitsOf(v);
            std::array<Bit, 8> y;
            for (int k = 0; k < 8; k++) y[k] = norm(s, q[k]);
            by.bytes.push_back(y);
            bool known = true;
            int ch = 0;
            for (int k = 0; k < 8; k++) { if (y[k].t > 1) known = false; ch |= (y[k].t == 1) << k; }
            if (known) { r += (char)ch; by.bytes.back() = byteBits(ch); }
        }
        if ((i64)r.size() == e.b - b.b) return cst(r);
        return by;
    }
    if (b.isPtr(P_NULL) && e.isPtr(P_NULL)) return cst("");
    return any();
}
StrC Interp::textOf(State& s, const Val& p, const Val& len)
{
    if (len.isInt() && len.a == 0) return cst("");
    if (len.k == V_SZ && p.isPtr(P_SD) && p.c == 0 && len.d == 0) {
        StrC c = strAt(s, mkPtr(P_OBJ, p.a, p.b));
        if (c.same(strC(len))) return c;
        if (strC(len).k == S_OPQ && strC(len).text == "cut" && c.k == S_OPQ && strC(len).ent == c.ent) return strC(len);
        return any("part of a text");
    }
    if (len.k == V_SZ && len.d == 0 && p.isPtr(P_TOP) && p.a == -77) return strC(len);
    if (p.isPtr(P_NULL)) throw Bug { "undefined", "a null pointer used as text" };
    try { return textRange(s, p, ptrAddVar(s, p, len, 1)); }
    catch (Unmodelled&) { return any(); }
}

// where a byte is in a text of which nothing is known: nowhere, or at a position of its own
bool Interp::findByte(State& s, const StrC& c, int byte, Val& ret)
{
    if (!explicitElems || c.k != S_OPQ || !c.ent || !s.objc(c.ent)) return false;
    bool name = c.text == "name";
    if (!name && !(c.text == "text" && s.objc(c.ent)->tag != 2 && s.objc(c.ent)->tag != 4)) return false;
    if (byte == 0) return false;
    if (isEmptyStr(s, c) || !decide(s, c.ent, 2000 + byte + (name ? 300 : 0), 2, "the byte is in the text")) { ret = mkInt(64, ~0ull); return true; }
    i64 id = 100000 + c.ent * 600 + byte + (name ? 300 : 0);
    ret = mkTok(64, id, 8);
    s.tokSet(-(1000 + 2 * id) - 1, 1ll << 60);
    return true;
}

// default string building: constants and ranges
StrC Spec::appendRange(State&, const StrC& c, int buf, i64 p, i64 q)
{
    StrC r;
    r.k = S_RAW;
    r.buf = buf;
    r.p = p;
    r.q = q;
    if (c.k == S_CONST && c.text.empty()) return r;
    if (c.k == S_RAW && c.buf == buf && c.q == p) { r.p = c.p; return r; }
    if (c.k == S_ANY) return c;
    return any("concatenation");
}
StrC Spec::appendByte(State&, const StrC& c, const Val& b)
{
    if (c.k == S_CONST && b.isInt()) return cst(c.text + (char)b.a);
    if (c.k == S_ANY) return c;
    return any("concatenation");
}
StrC Spec::appendStr(State& s, const StrC& c, const StrC& t)
{
    if (t.k == S_CONST && t.text.empty()) return c;
    if (c.k == S_CONST && c.text.empty()) return t;
    if (c.k == S_CONST && t.k == S_CONST) return cst(c.text + t.text);
    if (t.k == S_RAW && (c.k == S_CONST || c.k == S_RAW)) return appendRange(s, c, t.buf, t.p, t.q);
    if (c.k == S_ANY) { StrC r = c; if (t.k == S_CONST || t.nonempty == 1) r.nonempty = 1; return r; }
    if (t.k == S_BYTES) {
        StrC r = c;
        for (auto& y : t.bytes) r = appendByte(s, r, mkBits(std::vector<Bit>(y.begin(), y.end())));
        return r;
    }
    StrC r = any("concatenation");
    if ((c.k == S_CONST && !c.text.empty()) || (t.k == S_CONST && !t.text.empty()) || c.nonempty == 1) r.nonempty = 1;
    return r;
}
ConC Spec::vecPush(State&, const ConC&, const Val&) { ConC c; c.k = C_ANY; c.nonempty = 1; return c; }
bool Spec::mapEmplace(State& s, ConC& c, const StrC&, const Val&) { bool in = I->guess(s, 2, "key is new"); c = ConC(); c.k = C_ANY; c.nonempty = 1; return in; }
void Spec::enterCut(State&, const State&) { }

static const char* BYTE_TESTS[] = { "isdigit", "isxdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "iscntrl", "isprint", "ispunct", "isgraph", "isblank" };
static bool byteTest(const std::string& n, int c)
{
    bool dig = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z';
    if (n == "isdigit") return dig;
    if (n == "isxdigit") return dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    if (n == "isalpha") return up || lo;
    if (n == "isalnum") return up || lo || dig;
    if (n == "isspace") return c == ' ' || (c >= 9 && c <= 13);
    if (n == "isupper") return up;
    if (n == "islower") return lo;
    if (n == "iscntrl") return c < 32 || c == 127;
    if (n == "isprint") return c >= 32 && c < 127;
    if (n == "isgraph") return c > 32 && c < 127;
    if (n == "isblank") return c == ' ' || c == '\t';
    return c > 32 && c < 127 && !(up || lo || dig);
}

MR Interp::intrinsic(State& s, const CallBase& cb, Function* F, std::vector<Val>& a, Val& ret)
{
    std::string n = F->getName().str();
    auto is = [&](const char* p) { return starts(n, p); };
    if (is("llvm.lifetime.start")) {
        if (a[1].isPtr(P_OBJ)) if (Obj* o = s.obj((int)a[1].a)) o->cells.clear();
        return M_RET;
    }
    if (is("llvm.lifetime.end")) return M_RET;
    if (is("llvm.dbg") || is("llvm.assume") || is("llvm.experimental.noalias") || is("llvm.invariant") || is("llvm.donothing")) return M_RET;
    if (is("llvm.expect") || is("llvm.launder") || is("llvm.threadlocal")) { ret = a[0]; return M_RET; }
    if (is("llvm.is.constant")) { ret = mkInt(1, 0); return M_RET; }
    if (is("llvm.objectsize")) { ret = mkInt(64, ~0ull); return M_RET; }
    if (is("llvm.trap")) throw Bug { "terminate", "traps" };
    if (is("llvm.memcpy") || is("llvm.memmove")) {
        Val len = concretize(s, a[2]);
        if (len.k != V_INT) throw Unmodelled { "copy of unknown length" };
        copyMem(s, a[0], a[1], len.a);
        return M_RET;
    }
    if (is("llvm.memset")) {
        Val len = concretize(s, a[2]), v = concretize(s, a[1]);
        if (len.k != V_INT || v.k != V_INT) throw Unmodelled { "memset" };
        i64 i = 0;
        for (; i + 8 <= len.a; i += 8) { u64 x = 0; for (int k = 0; k < 8; k++) x = x << 8 | (v.a & 255); store(s, ptrAdd(s, a[0], i), mkInt(64, x), 8); }
        for (; i < len.a; i++) store(s, ptrAdd(s, a[0], i), v, 1);
        return M_RET;
    }
    if (is("llvm.eh.typeid.for")) {
        auto* c = cb.getArgOperand(0)->stripPointerCasts();
        ret = mkInt(32, 1000 + (u64)globIds[cast<GlobalVariable>(c)]);
        return M_RET;
    }
    int w = cb.getType()->isVoidTy() ? 0 : widthOf(cb.getType());
    int lane = cb.getType()->isVectorTy() ? widthOf(cb.getType()->getScalarType()) : w;
    auto pick = [&](unsigned pred) {
        auto x = bitsOf(a[0]), y = bitsOf(a[1]);
        std::vector<Bit> r;
        for (int i = 0; i < w; i += lane) {
            Val p = mkBits(std::vector<Bit>(x.begin() + i, x.begin() + i + lane)), q = mkBits(std::vector<Bit>(y.begin() + i, y.begin() + i + lane));
            Val out;
            if (!pointwise(s, p, q, lane, [&](u64 u, u64 v) {
                    i64 su = sext64(u, lane), sv = sext64(v, lane);
                    bool c = pred == 0 ? u > v : pred == 1 ? u < v : pred == 2 ? su > sv : su < sv;
                    return c ? u : v;
                }, out)) out = mkTop(lane);
            auto z = bitsOf(out);
            r.insert(r.end(), z.begin(), z.end());
        }
        ret = mkBits(r);
        return M_RET;
    };
    if (is("llvm.umax")) return pick(0);
    if (is("llvm.umin")) return pick(1);
    if (is("llvm.smax")) return pick(2);
    if (is("llvm.smin")) return pick(3);
    if (is("llvm.cttz") || is("llvm.ctlz")) {
        if (a[0].k == V_TOP) { ret = mkTop(w); return M_RET; }
        auto b = bitsOf(a[0]);
        for (int i = 0; i < w; i++) {
            Bit x = norm(s, b[is("llvm.cttz") ? i : w - 1 - i]);
            if (x.t == 2) { ret = mkTop(w); return M_RET; }
            if (x.t == 3) throw SplitVar { x.var, maskOf(x.mask) };
            if (x.t == 1) { ret = mkInt(w, (u64)i); return M_RET; }
        }
        ret = mkInt(w, (u64)w);
        return M_RET;
    }
    if (is("llvm.ctpop")) { ret = concretize(s, a[0]); ret = ret.k == V_INT ? mkInt(w, (u64)__builtin_popcountll((u64)ret.a)) : mkTop(w); return M_RET; }
    if (is("llvm.bswap")) { auto b = bitsOf(a[0]); std::vector<Bit> r; for (int i = w - 8; i >= 0; i -= 8) r.insert(r.end(), b.begin() + i, b.begin() + i + 8); ret = mkBits(r); return M_RET; }
    if (has(n, "pmovmskb") || has(n, "avx2.pmovmskb")) {
        auto b = bitsOf(a[0]);
        std::vector<Bit> r;
        for (size_t i = 7; i < b.size(); i += 8) r.push_back(b[i]);
        r.resize(32, B0());
        ret = mkBits(r);
        return M_RET;
    }
    if (has(n, "ptestz") || has(n, "ptestc") || has(n, "ptest.z")) {
        bool c = has(n, "ptestc");
        auto x = bitsOf(a[0]), y = bitsOf(a[1]);
        bool top = false, one = false;
        std::vector<Bit> r;
        for (size_t i = 0; i < x.size(); i++) { Bit q = norm(s, bitAnd(s, c ? bitNot(x[i]) : x[i], y[i])); r.push_back(q); if (q.t == 1) one = true; }
        if (one) { ret = mkInt(32, 0); return M_RET; }
        for (auto& q : r) {
            if (q.t == 3) throw SplitVar { q.var, maskOf(q.mask) };
            if (q.t == 2) top = true;
        }
        ret = top ? mkTop(32) : mkInt(32, 1);
        if (top) { ret = mkInt(32, (u64)guess(s, 2, "test")); }
        return M_RET;
    }
    if (is("llvm.abs")) { ret = mkTop(w); Val v = a[0]; Val o; if (pointwise(s, v, mkInt(w, 0), w, [&](u64 x, u64) { i64 q = sext64(x, w); return (u64)(q < 0 ? -q : q); }, o)) ret = o; return M_RET; }
    if (is("llvm.fshl") || is("llvm.fshr") || is("llvm.fabs") || is("llvm.is.fpclass") || is("llvm.floor") || is("llvm.trunc") || is("llvm.rint")) { ret = mkTop(w); return M_RET; }
    if (has(n, ".with.overflow")) { ret = mkAgg({ mkTop(64), mkTop(1) }); Val x = concretize(s, a[0]), y = concretize(s, a[1]); if (x.isInt() && y.isInt()) {
            int ww = x.w; __int128 p = 0;
            bool sg = has(n, ".s"), add = has(n, "add"), mul = has(n, "mul");
            __int128 u = sg ? (__int128)sext64(x.a, ww) : (__int128)trunc64(x.a, ww), v = sg ? (__int128)sext64(y.a, ww) : (__int128)trunc64(y.a, ww);
            p = add ? u + v : mul ? u * v : u - v;
            bool ov = sg ? p != (__int128)sext64((u64)p, ww) : p != (__int128)trunc64((u64)p, ww);
            ret = mkAgg({ mkInt(ww, (u64)p), mkInt(1, ov) });
        } return M_RET; }
    if (is("llvm.vector.reduce.or") || is("llvm.vector.reduce.umax")) {
        auto b = bitsOf(a[0]);
        std::vector<Bit> acc(w, B0());
        for (size_t i = 0; i < b.size(); i += w) for (int k = 0; k < w; k++) acc[k] = bitOr(s, acc[k], b[i + k]);
        if (!is("llvm.vector.reduce.or")) { ret = mkTop(w); return M_RET; }
        ret = mkBits(acc);
        return M_RET;
    }
    return M_NONE;
}

MR Interp::model(State& s, const CallBase& cb, FnInfo& f, std::vector<Val>& a, Val& ret)
{
    const std::string &C = f.cls, &B = f.base, &P = f.params, &D = f.dem;
    int w = cb.getType()->isVoidTy() ? 0 : cb.getType()->isSized() ? widthOf(cb.getType()) : 0;
    auto thr = [&](const char* t) { throwType(s, t); return M_THROW; };
    // ---- harness
    if (spec->call(s, f.F->getName().str(), cb, a, ret)) return M_RET;
    std::string raw = f.F->getName().str();
    // ---- C library and runtime
    if (raw == "_Znwm" || raw == "_Znam" || raw == "malloc" || raw == "_ZnwmRKSt9nothrow_t") {
        Val n = concretize(s, a[0]);
        if (n.k != V_INT) throw Unmodelled { "allocation of unknown size" };
        if (n.a > 1 << 20) return thr("_ZTISt9bad_alloc");
        if (mayFail(s, "an allocation")) return thr("_ZTISt9bad_alloc");
        ret = mkPtr(P_OBJ, s.newObj((int)n.a, 1), 0);
        return M_RET;
    }
    if (raw == "_ZdlPv" || raw == "_ZdlPvm" || raw == "_ZdaPv" || raw == "free" || raw == "_ZdaPvm") {
        if (a[0].isPtr(P_NULL)) return M_RET;
        if (!a[0].isPtr(P_OBJ)) throw Unmodelled { "delete" };
        Obj* o = s.obj((int)a[0].a);
        if (!o || o->dead || o->kind != 1 || a[0].b != 0) throw Bug { "lifetime", "deletes memory that is not allocated" };
        if (o->frozen) throw Bug { "shared", "deletes what is only read" };
        o->dead = true;
        o->cells.clear();
        return M_RET;
    }
    if (raw == "__cxa_allocate_exception") { Val n = concretize(s, a[0]); ret = mkPtr(P_OBJ, s.newObj((int)n.a, 3), 0); return M_RET; }
    if (raw == "__cxa_free_exception") return M_RET;
    if (raw == "__cxa_throw") {
        s.excObj = (int)a[0].a;
        s.excType = a[1].isPtr(P_GLOB) ? globs[a[1].a]->getName().str() : "?";
        return M_THROW;
    }
    if (raw == "__cxa_begin_catch") {
        s.caught.push_back({ s.excObj, s.excType });
        ret = a[0];
        s.excObj = 0;
        s.excType.clear();
        return M_RET;
    }
    if (raw == "__cxa_get_exception_ptr") { ret = a[0]; return M_RET; }
    if (raw == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return M_RET; }
    if (raw == "__cxa_rethrow") {
        if (s.caught.empty()) throw Bug { "terminate", "rethrow without an exception" };
        s.excObj = s.caught.back().first;
        s.excType = s.caught.back().second;
        return M_THROW;
    }
    if (raw == "_ZNSt9exceptionD2Ev" || raw == "_ZNSt9exceptionD1Ev") return M_RET;
    if (raw == "__clang_call_terminate") throw Bug { "terminate", "an exception (" + demangle(s.excType) + ") leaves a noexcept function" };
    if (raw == "_ZSt9terminatev" || raw == "abort" || raw == "__cxa_pure_virtual") throw Bug { "terminate", "terminates" };
    if (raw == "__cxa_guard_acquire") { Val v = load(s, a[0], 1, false); bool first = !(v.isInt() && v.a); ret = mkInt(32, first); if (first) s.tokSet(-7, s.tokGet(-7, 0) + 1); return M_RET; }
    if (raw == "__cxa_guard_release") { store(s, a[0], mkInt(8, 1), 1); s.tokSet(-7, s.tokGet(-7, 0) - 1); return M_RET; }
    if (raw == "__cxa_guard_abort") { s.tokSet(-7, s.tokGet(-7, 0) - 1); return M_RET; }
    if (raw == "__cxa_guard_abort" || raw == "__cxa_atexit" || raw == "__cxa_bad_cast") { ret = mkInt(32, 0); return M_RET; }
    if (raw == "strlen") {
        StrC c = cstr(s, a[0]);
        if (c.k == S_CONST) { ret = mkInt(64, c.text.size()); return M_RET; }
        if (c.k == S_BYTES) throw Unmodelled { "length of a computed text" };
        if (a[0].isPtr(P_SD)) { ret.k = V_SZ; ret.w = 64; ret.p = std::make_shared<StrC>(c); return M_RET; }
        ret = mkTop(64);
        return M_RET;
    }
    if (raw == "memcmp" || raw == "bcmp" || raw == "strncmp") {
        Val n = concretize(s, a[2]);
        if (n.k == V_INT && n.a <= 64) {
            for (i64 i = 0; i < n.a; i++) {
                Val x = load(s, ptrAdd(s, a[0], i), 1, false), y = load(s, ptrAdd(s, a[1], i), 1, false);
                Val e = icmp(s, CmpInst::ICMP_EQ, x, y, 8);
                if (truth(s, e, "bytes equal")) continue;
                Val l = icmp(s, CmpInst::ICMP_ULT, x, y, 8);
                ret = mkInt(32, truth(s, l, "byte less") ? ~0u : 1u);
                return M_RET;
            }
            ret = mkInt(32, 0);
            return M_RET;
        }
        ret = mkTop(32);
        return M_RET;
    }
    if (raw == "memchr") {
        Val n = concretize(s, a[2]);
        if (n.k == V_INT && n.a <= 64) {
            Val c = mkInt(8, 0);
            { auto b = bitsOf(a[1]); b.resize(8, BT()); c = mkBits(b); }
            for (i64 i = 0; i < n.a; i++) {
                Val x = load(s, ptrAdd(s, a[0], i), 1, false);
                if (truth(s, icmp(s, CmpInst::ICMP_EQ, x, c, 8), "byte found")) { ret = ptrAdd(s, a[0], i); return M_RET; }
            }
            ret = mkNull();
            return M_RET;
        }
        throw Unmodelled { "memchr of unknown length" };
    }
    for (const char* t : BYTE_TESTS)
        if (raw == t) {
            // characters below zero behave as in the C library's tables: like the unsigned ones
            Val out;
            if (pointwise(s, a[0], mkInt(32, 0), 32, [&](u64 x, u64) { return (u64)byteTest(t, (int)(x & 255)); }, out)) ret = out;
            else ret = mkTop(32);
            return M_RET;
        }
    if (raw == "tolower" || raw == "toupper") {
        Val out;
        if (pointwise(s, a[0], mkInt(32, 0), 32, [&](u64 x, u64) { if (raw == "tolower") return x >= 'A' && x <= 'Z' ? x + 32 : x; return x >= 'a' && x <= 'z' ? x - 32 : x; }, out)) ret = out;
        else ret = mkTop(32);
        return M_RET;
    }
    if (starts(D, "std::__throw_")) {
        static const std::map<std::string, const char*> T = {
            { "out_of_range_fmt", "_ZTISt12out_of_range" }, { "out_of_range", "_ZTISt12out_of_range" }, { "logic_error", "_ZTISt11logic_error" }, { "length_error", "_ZTISt12length_error" },
            { "bad_alloc", "_ZTISt9bad_alloc" }, { "bad_array_new_length", "_ZTISt20bad_array_new_length" }, { "bad_cast", "_ZTISt8bad_cast" }, { "invalid_argument", "_ZTISt16invalid_argument" } };
        for (auto& t : T) if (starts(D.substr(13), t.first.c_str()) && f.F->isDeclaration()) return thr(t.second);
    }
    // ---- strings
    if (C == "STR") {
        Val self = a.empty() ? Val() : a[0];
        auto rd = [&](const Val& p) { return strAt(s, p); };
        auto other = [&](size_t i) -> StrC { // the text of argument i, by parameter type
            return strAt(s, a[i]);
        };
        auto svText = [&](const Val& p) { // a string_view object
            Val len = load(s, p, 8, false), ptr = load(s, ptrAdd(s, p, 8), 8, true);
            return textOf(s, ptr, len);
        };
        auto empties = [&](const Val& p) { putStr(s, p, cst("")); };
        auto src = [&](size_t i, bool& ok) -> StrC { // parameters starting at argument i
            ok = true;
            std::string p = P.substr(1, P.size() - 2);
            size_t al = p.find(", std::allocator");
            if (al != std::string::npos) p = p.substr(0, al);
            if (p == "STR const&" || p == "STR&") return rd(a[i]);
            if (p == "STR&&") { StrC c = rd(a[i]); return c; }
            if (p == "char const*") return cstr(s, a[i]);
            if (p == "char const*, unsigned long") return textOf(s, a[i], a[i + 1]);
            if (p == "SV const&") return svText(a[i]);
            if (p == "SV") return textOf(s, a[i + 1], a[i]);
            if (p == "std::initializer_list<char>") return textOf(s, a[i], a[i + 1]);
            if (p == "char" ) { if (a[i].isInt()) return cst(std::string(1, (char)a[i].a)); return any(); }
            if (p == "unsigned long, char") {
                Val n = concretize(s, a[i]);
                if (n.isInt() && n.a == 0) return cst("");
                if (n.isInt() && n.a < 64 && a[i + 1].isInt()) return cst(std::string((size_t)n.a, (char)a[i + 1].a));
                StrC r = any("fill");
                if (a[i + 1].isInt()) spec->fill((char)a[i + 1].a, r);
                return r;
            }
            if (p == "STR const&, unsigned long, unsigned long" || p == "STR const&, unsigned long") {
                StrC c = rd(a[i]);
                if (c.k == S_CONST && a[i + 1].isInt() && (p.size() < 36 || a[i + 2].isInt())) {
                    if ((u64)a[i + 1].a > c.text.size()) { ok = false; return c; }
                    return cst(c.text.substr((size_t)a[i + 1].a, p.size() < 36 ? std::string::npos : (size_t)a[i + 2].a));
                }
                if (a[i + 1].isInt() && a[i + 1].a == 0 && (p.size() < 36 || (a[i + 2].isInt() && a[i + 2].a == -1) || (a[i + 2].k == V_SZ && a[i + 2].d == 0 && strC(a[i + 2]).same(c)))) return c;
                return partOf(c);
            }
            // two iterators
            if (a.size() >= i + 2) return textRange(s, a[i], a[i + 1]);
            throw Unmodelled { "string from " + P };
        };
        bool ok = true;
        // a part of the input as a text of its own, as when it is appended to nothing
        auto fromInput = [&](const StrC& c) {
            if (c.k != S_RAW) return c;
            if (c.p == c.q) return cst("");
            StrC r = spec->appendRange(s, cst(""), c.buf, c.p, c.q);
            return r.k == S_TRANS ? r : c;
        };
        if (B == "basic_string") {
            if (P == "()" || P == "(std::allocator<char> const&)") { empties(self); return M_RET; }
            StrC c = src(1, ok);
            if (!ok) return thr("_ZTISt12out_of_range");
            c = fromInput(c);
            if (P == "(STR&&)") empties(a[1]);
            else if (!(c.k == S_CONST && c.text.size() < 16) && mayFail(s, "a copy of a text")) return thr("_ZTISt9bad_alloc");
            putStr(s, self, c);
            return M_RET;
        }
        if (B == "~basic_string") {
            rd(self);
            Obj& o = objRef(s, self, true, "destroy");
            cellClear(o, (int)self.b, 32);
            return M_RET;
        }
        if (B == "operator=" || B == "assign") {
            rd(self);
            if (P == "(STR&&)") {
                StrC c = rd(a[1]);
                if (!(a[1].a == self.a && a[1].b == self.b)) { empties(a[1]); putStr(s, self, c); }
                ret = self;
                return M_RET;
            }
            StrC c = src(1, ok);
            if (!ok) return thr("_ZTISt12out_of_range");
            c = fromInput(c);
            if (!(c.k == S_CONST && c.text.size() < 16) && mayFail(s, "a copy of a text")) return thr("_ZTISt9bad_alloc");
            putStr(s, self, c);
            ret = self;
            return M_RET;
        }
        if (B == "push_back" || ((B == "operator+=") && P == "(char)")) {
            StrC c = spec->appendByte(s, rd(self), a[1]);
            putStr(s, self, c);
            ret = self;
            return M_RET;
        }
        if (B == "append" || B == "operator+=") {
            StrC c = src(1, ok);
            if (!ok) return thr("_ZTISt12out_of_range");
            StrC self0 = rd(self);
            StrC r;
            if (c.k == S_RAW) r = spec->appendRange(s, self0, c.buf, c.p, c.q);
            else r = spec->appendStr(s, self0, c);
            putStr(s, self, r);
            ret = self;
            return M_RET;
        }
        if (B == "size" || B == "length") {
            StrC c = rd(self);
            if (c.k == S_CONST) { ret = mkInt(64, c.text.size()); return M_RET; }
            if (c.k == S_BYTES) { ret = mkInt(64, c.bytes.size()); return M_RET; }
            if (c.k == S_INPUT) { ret = concretize(s, mkDiff(c.buf, 0, ENDPOS)); return M_RET; }
            ret.k = V_SZ;
            ret.w = 64;
            ret.p = std::make_shared<StrC>(c);
            return M_RET;
        }
        if (B == "max_size") { ret = mkInt(64, 0x3fffffffffffffffull); return M_RET; }
        if (B == "capacity") { ret = mkTop(64); return M_RET; }
        if (B == "empty") { ret = mkInt(1, isEmptyStr(s, rd(self))); return M_RET; }
        if (B == "clear") { rd(self); empties(self); return M_RET; }
        if (B == "reserve" || B == "shrink_to_fit") {
            rd(self);
            objRef(s, self, true, "use");
            if (mayFail(s, "an allocation")) return thr("_ZTISt9bad_alloc");
            return M_RET;
        }
        if (B == "swap") {
            StrC x = rd(self), y = rd(a[1]);
            putStr(s, self, y);
            putStr(s, a[1], x);
            return M_RET;
        }
        if (B == "data" || B == "c_str" || B == "begin" || B == "cbegin") {
            StrC c = rd(self);
            if (c.k == S_INPUT) { ret = mkPtr(P_BUF, c.buf, 0); return M_RET; }
            ret = mkPtr(P_SD, self.a, self.b, 0);
            return M_RET;
        }
        if (B == "end" || B == "cend") {
            StrC c = rd(self);
            if (c.k == S_INPUT) { ret = mkPtr(P_BUF, c.buf, ENDPOS); return M_RET; }
            ret = mkPtr(P_SD, self.a, self.b, ENDPOS);
            return M_RET;
        }
        if (B == "operator[]" || B == "at" || B == "front" || B == "back") {
            StrC c = rd(self);
            if (c.k == S_INPUT && B != "back") {
                Val i = B == "front" ? mkInt(64, 0) : concretize(s, a[1]);
                if (i.k == V_INT) {
                    if (B == "at") { Val len = concretize(s, mkDiff(c.buf, 0, ENDPOS)); if (!truth(s, icmp(s, CmpInst::ICMP_UGT, len, i, 64), "index in range")) return thr("_ZTISt12out_of_range"); }
                    ret = ptrAdd(s, mkPtr(P_BUF, c.buf, 0), i.a);
                    return M_RET;
                }
                throw Unmodelled { "string index" };
            }
            if (c.k == S_CONST && (B == "front" || B == "back")) {
                if (c.text.empty()) throw Bug { "undefined", "front or back of an empty string" };
                ret = mkPtr(P_SD, self.a, self.b, B == "front" ? 0 : (i64)c.text.size() - 1);
                return M_RET;
            }
            if (c.k == S_CONST && a.size() > 1 && a[1].isInt()) {
                if (B == "at" && (u64)a[1].a >= c.text.size()) return thr("_ZTISt12out_of_range");
                if ((u64)a[1].a > c.text.size()) throw Bug { "undefined", "index outside a string" };
                ret = mkPtr(P_SD, self.a, self.b, a[1].a);
                return M_RET;
            }
            if (B == "back" || B == "front") {
                if (isEmptyStr(s, c)) throw Bug { "undefined", "front or back of an empty string" };
                ret = mkPtr(P_SD, self.a, self.b, B == "back" ? ENDPOS - 1 : 0);
                return M_RET;
            }
            throw Unmodelled { "string index" };
        }
        if (B == "pop_back") {
            StrC c = rd(self);
            if (c.k == S_CONST && !c.text.empty()) c.text.pop_back();
            else if (spec->popBack(s, c)) { }
            else if (isEmptyStr(s, c)) throw Bug { "undefined", "pop_back of an empty string" };
            else { bool w = c.k == S_RAW || c.k == S_TRANS || c.k == S_DEN; c = any("shortened text"); c.d = w; }
            putStr(s, self, c);
            return M_RET;
        }
        if (B == "substr") { // (sret, this, pos, n)
            StrC c = rd(a[1]);
            StrC r = partOf(c);
            if (a[2].isInt() && a[2].a == 0 && ((a[3].isInt() && a[3].a == -1) || (a[3].k == V_SZ && a[3].d == 0 && strC(a[3]).same(c)))) r = c;
            if (c.k == S_CONST && a[2].isInt() && a[3].isInt()) {
                if ((u64)a[2].a > c.text.size()) return thr("_ZTISt12out_of_range");
                r = cst(c.text.substr((size_t)a[2].a, (size_t)a[3].a));
            }
            else if (!(a[2].isInt() && a[2].a == 0)) {
                if (guess(s, 2, "position out of range")) return thr("_ZTISt12out_of_range");
            }
            putStr(s, a[0], r);
            return M_RET;
        }
        if (B == "operator basic_string_view" || starts(B, "operator std::basic_string_view") || B == "operator SV" || has(D, "::operator SV()") || has(D, "operator std::basic_string_view")) {
            StrC c = rd(self);
            if (c.k == S_CONST) { ret = mkAgg({ mkInt(64, c.text.size()), mkPtr(P_SD, self.a, self.b, 0) }); return M_RET; }
            if (c.k == S_BYTES) { ret = mkAgg({ mkInt(64, c.bytes.size()), mkPtr(P_SD, self.a, self.b, 0) }); return M_RET; }
            if (c.k == S_INPUT) { ret = mkAgg({ concretize(s, mkDiff(c.buf, 0, ENDPOS)), mkPtr(P_BUF, c.buf, 0) }); return M_RET; }
            Val n;
            n.k = V_SZ;
            n.w = 64;
            n.p = std::make_shared<StrC>(c);
            ret = mkAgg({ n, mkPtr(P_SD, self.a, self.b, 0) });
            return M_RET;
        }
        if (B == "compare") {
            StrC c = rd(self), o = src(1, ok);
            if (c.k == S_CONST && o.k == S_CONST) { int r = c.text.compare(o.text); ret = mkInt(32, (u64)(i64)r); return M_RET; }
            if (c.same(o) && c.k != S_ANY) { ret = mkInt(32, 0); return M_RET; }
            ret = mkTop(32);
            return M_RET;
        }
        if (starts(B, "find") || starts(B, "rfind")) {
            StrC c = rd(self);
            if (c.k == S_CONST && P == "(char, unsigned long)" && a[1].isInt() && a[2].isInt()) { ret = mkInt(64, (u64)c.text.find((char)a[1].a, (size_t)a[2].a)); return M_RET; }
            if (P == "(char, unsigned long)" && starts(B, "find") && a[1].isInt() && a[2].isInt() && a[2].a == 0 && findByte(s, c, (int)(a[1].a & 255), ret)) return M_RET;
            ret = mkTop(64);
            return M_RET;
        }
        if ((B == "resize" || B == "reserve") && a.size() > 1 && a[1].isInt() && (u64)a[1].a > 0x3fffffffffffffffull) return thr("_ZTISt12length_error");
        if (B == "insert" && a.size() > 3 && a[1].isPtr(P_SD) && a[1].c == ENDPOS) {
            StrC self0 = rd(self), c = textRange(s, a[2], a[3]);
            putStr(s, self, c.k == S_RAW ? spec->appendRange(s, self0, c.buf, c.p, c.q) : spec->appendStr(s, self0, c));
            ret = mkTop(64);
            return M_RET;
        }
        if (B == "insert" && a.size() == 3 && a[1].isPtr(P_SD) && a[1].c == ENDPOS && P.size() > 7 && P.compare(P.size() - 7, 7, ", char)") == 0) {
            putStr(s, self, spec->appendByte(s, rd(self), a[2]));
            ret = mkTop(64);
            return M_RET;
        }
        if (B == "resize" || B == "erase" || B == "insert" || B == "replace") {
            rd(self);
            putStr(s, self, any("edited text"));
            ret = self;
            return M_RET;
        }
        if (B == "get_allocator" || B == "_S_select_on_copy") return M_RET;
        if (starts(B, "_") || B == "traits_type") throw Unmodelled { "inside of std::string: " + D };
        throw Unmodelled { D };
    }
    if (C == "std" && has(P, "STR") && (starts(B, "operator") || B == "swap")) {
        auto arg = [&](size_t i, const std::string& t) -> StrC { return has(t, "STR") ? strAt(s, a[i]) : has(t, "char const*") ? cstr(s, a[i]) : a[i].isInt() ? cst(std::string(1, (char)a[i].a)) : any(); };
        std::string p = P.substr(1, P.size() - 2);
        size_t k = p.find(", ");
        if (k != std::string::npos) {
            std::string t1 = p.substr(0, k), t2 = p.substr(k + 2);
            if (B == "operator+" && (t1 == "STR const&" || t1 == "STR&&" || t1 == "char const*" || t1 == "char")) {
                StrC r = spec->appendStr(s, arg(1, t1), arg(2, t2));
                putStr(s, a[0], r);
                if (t1 == "STR&&") putStr(s, a[1], cst(""));
                return M_RET;
            }
            if ((B == "operator==" || B == "operator!=" || B == "operator<" || B == "operator<=>") && (t1 == "STR const&" || starts(t1, "char const*"))) {
                StrC x = arg(0, t1), y = arg(1, t2);
                if (spec->call(s, "std::string " + B, cb, a, ret)) return M_RET;
                if (x.k == S_CONST && y.k == S_CONST) { bool r = B == "operator==" ? x.text == y.text : B == "operator!=" ? x.text != y.text : x.text < y.text; ret = mkInt(1, r); return M_RET; }
                if (x.same(y) && x.k != S_ANY) { ret = mkInt(1, B == "operator=="); return M_RET; }
                ret = mkInt(1, (u64)guess(s, 2, "texts " + B));
                return M_RET;
            }
            if (B == "swap" && has(t1, "STR&") && t1 == "STR&") {
                StrC x = strAt(s, a[0]), y = strAt(s, a[1]);
                putStr(s, a[0], y);
                putStr(s, a[1], x);
                return M_RET;
            }
        }
    }
    if (starts(D, "std::__cxx11::to_string(")) {
        StrC r = any("number as text");
        r.nonempty = 1;
        const Val& v = a[1];
        if (v.isInt() && has(D, "to_string(unsigned")) r = cst(std::to_string((u64)trunc64(v.a, v.w)));
        else if (v.isInt() && (has(D, "to_string(int)") || has(D, "to_string(long"))  && !has(D, "double")) r = cst(std::to_string(sext64(v.a, v.w)));
        else if (v.k == V_SZ && !v.d && strC(v).k == S_OPQ && strC(v).text.compare(0, 10, "number as ") == 0 && has(D, ("to_string(" + strC(v).text.substr(10) + ")").c_str())) {
            // the decimal of a number that was read
            r.k = S_OPQ;
            r.ent = strC(v).ent;
            r.text = "decimal of " + strC(v).text;
        } putStr(s, a[0], r); return M_RET; }
    if (C == "SV" && B == "find" && P == "(char, unsigned long)" && a.size() == 3 && a[1].isInt() && a[2].isInt() && a[2].a == 0) {
        StrC c = textOf(s, load(s, ptrAdd(s, a[0], 8), 8, true), load(s, a[0], 8, false));
        if (c.k == S_CONST) { ret = mkInt(64, (u64)c.text.find((char)a[1].a)); return M_RET; }
        if (findByte(s, c, (int)(a[1].a & 255), ret)) return M_RET;
    }
    if (C == "SV" && (B == "compare" || starts(B, "find") || starts(B, "rfind"))) {
        if (a.size() >= 2 && B == "compare" && P == "(SV)") {
            StrC x = textOf(s, load(s, ptrAdd(s, a[0], 8), 8, true), load(s, a[0], 8, false)), y = textOf(s, a[2], a[1]);
            if (x.k == S_CONST && y.k == S_CONST) { ret = mkInt(32, (u64)(i64)x.text.compare(y.text)); return M_RET; }
            if (x.same(y) && x.k != S_ANY) { ret = mkInt(32, 0); return M_RET; }
            ret = mkTop(32);
            return M_RET;
        }
    }
    // ---- containers of values
    if (C == "std::vector<json::value>") return vecModel(s, cb, f, a, ret);
    if (C == "std::map<STR, json::value>") return mapModel(s, cb, f, a, ret);
    if (B == "_M_valptr" && starts(C, "std::_Rb_tree_node<") && has(C, "json::value")) { ret = a[0]; return M_RET; }
    if (starts(D, "std::_Rb_tree_increment(")) {
        int k = a[0].isPtr(P_OBJ) && s.objc((int)a[0].a) ? s.objc((int)a[0].a)->kind : 0;
        if (k != 5 && k != 7) throw Unmodelled { D };
        ret = elemNext(s, (int)a[0].a);
        return M_RET;
    }
    if (explicitElems && (B == "operator==" || B == "operator!=") && C == "std" && a.size() == 2) {
        VK k = P == "(std::vector<json::value> const&, std::vector<json::value> const&)" ? V_VEC : P == "(std::map<STR, json::value> const&, std::map<STR, json::value> const&)" ? V_MAP : V_UNDEF;
        if (k != V_UNDEF) {
            int q = sameContent(s, a[0], a[1], k);
            if (q < 0) q = guess(s, 2, "contents are equal");
            ret = mkInt(1, (q == 1) == (B == "operator=="));
            return M_RET;
        }
    }
    (void)w;
    return M_NONE;
}

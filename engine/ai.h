// Core data types of the abstract interpreter.  See ../DESIGN.md.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- byte sets
struct M256
{
    u64 w[4] = { 0, 0, 0, 0 };
    bool operator==(const M256& o) const { return !memcmp(w, o.w, 32); }
    bool operator!=(const M256& o) const { return !(*this == o); }
    bool operator<(const M256& o) const { return memcmp(w, o.w, 32) < 0; }
    M256 operator&(const M256& o) const { M256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
    M256 operator|(const M256& o) const { M256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] | o.w[i]; return r; }
    M256 operator^(const M256& o) const { M256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] ^ o.w[i]; return r; }
    M256 operator~() const { M256 r; for (int i = 0; i < 4; i++) r.w[i] = ~w[i]; return r; }
    bool none() const { return !(w[0] | w[1] | w[2] | w[3]); }
    bool test(int i) const { return w[i >> 6] >> (i & 63) & 1; }
    void set(int i) { w[i >> 6] |= 1ull << (i & 63); }
    bool subset(const M256& o) const { return (*this & ~o).none(); }
    int count() const { int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(w[i]); return n; }
    int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
    static M256 all() { M256 r; for (int i = 0; i < 4; i++) r.w[i] = ~0ull; return r; }
    static M256 of(int c) { M256 r; r.set(c & 255); return r; }
    static M256 str(const char* s) { M256 r; for (; *s; ++s) r.set((unsigned char)*s); return r; }
    static M256 range(int a, int b) { M256 r; for (int i = a; i <= b; i++) r.set(i); return r; }
};
std::string setStr(const M256& m);
int internMask(const M256& m);
const M256& maskOf(int id);

// ---------------------------------------------------------------- bits
// A bit is a constant, unknown, or an exactly known function of one input byte.
struct Bit
{
    uint8_t t; // 0 zero, 1 one, 2 unknown, 3 function of one byte
    int var;
    int mask;
    bool operator==(const Bit& o) const { return t == o.t && (t != 3 || (var == o.var && mask == o.mask)); }
    bool operator!=(const Bit& o) const { return !(*this == o); }
};
inline Bit B0() { return { 0, 0, 0 }; }
inline Bit B1() { return { 1, 0, 0 }; }
inline Bit BT() { return { 2, 0, 0 }; }
inline Bit BC(bool b) { return b ? B1() : B0(); }

// ---------------------------------------------------------------- values
// V_SZ: the length of the string content p;  V_DIFF: positions c - b of buffer a, plus d
// V_CNT: number of elements of container content p;  V_IDX: the index of element (or end) a, plus d
enum VK : uint8_t { V_UNDEF, V_INT, V_BITS, V_PTR, V_AGG, V_DIFF, V_TOK, V_STR, V_VEC, V_MAP, V_TOP, V_SZ, V_CNT, V_STREAM, V_IDX };
// P_OBJ a=object b=offset; P_BUF a=buffer b=position; P_GLOB a=global b=offset; P_FUNC a=function
// P_SD a=object b=offset of a string c=index into its text; P_IT a=object b=offset of a map c=0 begin/1 end/2 other d=id
enum PK : uint8_t { P_NULL, P_OBJ, P_BUF, P_FUNC, P_GLOB, P_SD, P_IT, P_TOP };
static const i64 ENDPOS = 1ll << 60;     // position of the end of a buffer; END+k for small k
static const i64 IDX_KEY = -2, IDX_TOK = 1ll << 32;
static const i64 UNKPOS = -(1ll << 60);  // no position
inline bool isEndPos(i64 p) { return p > ENDPOS - (1 << 20); }

struct Payload
{
    virtual ~Payload() {}
};
typedef std::shared_ptr<const Payload> PP;

struct Val
{
    VK k = V_UNDEF;
    uint8_t pk = 0;
    uint16_t w = 0;
    i64 a = 0, b = 0, c = 0, d = 0;
    PP p;
    bool isInt() const { return k == V_INT; }
    bool isPtr(int q) const { return k == V_PTR && pk == q; }
};
struct BitsP : Payload { std::vector<Bit> b; };
struct AggP : Payload { std::vector<Val> v; };

inline u64 trunc64(u64 v, int w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
inline i64 sext64(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v = trunc64(v, w); return (i64)((v ^ m) - m); }
inline Val mkInt(int w, u64 v) { Val r; r.k = V_INT; r.w = w; r.a = (i64)trunc64(v, w); return r; }
inline Val mkTop(int w) { Val r; r.k = V_TOP; r.w = w; return r; }
inline Val mkTok(int w, i64 id, i64 kind = 0) { Val r; r.k = V_TOK; r.w = w; r.a = id; r.b = kind; return r; }
inline Val mkIdx(int slot, i64 d = 0) { Val r; r.k = V_IDX; r.w = 64; r.a = slot; r.d = d; return r; }
inline Val mkNull() { Val r; r.k = V_PTR; r.pk = P_NULL; r.w = 64; return r; }
inline Val mkPtr(PK k, i64 a, i64 b = 0, i64 c = 0, i64 d = 0) { Val r; r.k = V_PTR; r.pk = k; r.w = 64; r.a = a; r.b = b; r.c = c; r.d = d; return r; }
inline Val mkAgg(std::vector<Val> v) { auto p = std::make_shared<AggP>(); p->v = std::move(v); Val r; r.k = V_AGG; r.p = p; return r; }
inline Val mkDiff(int buf, i64 p, i64 q, i64 add = 0) { Val r; r.k = V_DIFF; r.w = 64; r.a = buf; r.b = p; r.c = q; r.d = add; return r; }
inline const std::vector<Val>& aggOf(const Val& v) { return static_cast<const AggP*>(v.p.get())->v; }
std::vector<Bit> bitsOf(const Val& v);
Val mkBits(std::vector<Bit> b);

// ---------------------------------------------------------------- contents of strings, vectors, maps
enum SK : uint8_t {
    S_CONST,  // literal text
    S_ANY,    // unknown text (text: where it comes from; d = 1: it is known to be wrong)
    S_INPUT,  // the whole of buffer buf
    S_RAW,    // copy of buffer range [p,q)
    S_TRANS,  // JSON string decoding of buffer range [p,q), plus d bytes of the unit at q
    S_DEN,    // exactly what the completed input value (kind p) denotes
    S_OPQ,    // the text of symbolic entity p
    S_OUT,    // monitored output
    S_BYTES,  // the bytes given (functions of input bytes)
    S_CAT,    // parts
    S_FILL,   // room for the bytes of buffer buf and d more
    S_PAD     // the bytes of buffer buf and d zero bytes
};
struct Tok
{
    char k = 'c';     // c literal, w white space, v the text of value id, r the text of id as it is, e the same escaped
    int id = 0;
    std::string text; // of c; of r and e: which text
    bool operator==(const Tok& o) const { return k == o.k && id == o.id && text == o.text; }
};
struct StrC : Payload
{
    SK k = S_ANY;
    std::string text;
    int buf = -1;
    i64 p = 0, q = 0, d = 0;
    int nonempty = -1; // -1 unknown
    int ent = 0;       // the entity whose text this is
    int con = 0, back = 0, key = 0; // S_OUT: see spec_serial.cpp
    std::vector<Tok> toks;   // S_CAT
    std::vector<std::array<Bit, 8>> bytes;
    bool same(const StrC& o) const { return bytes == o.bytes && k == o.k && ent == o.ent && text == o.text && buf == o.buf && p == o.p && q == o.q && d == o.d && nonempty == o.nonempty && con == o.con && back == o.back && key == o.key && toks == o.toks; }
};
enum CK : uint8_t {
    C_EMPTY,  // no element
    C_ANY,    // unknown elements
    C_BUILT,  // the elements of the container at spec depth d so far, less the pending one if behind
    C_DEN,    // exactly what the completed input value denotes
    C_SEQ     // concatenation of segments
};
struct Seg
{
    i64 id = 0;       // symbolic container or element
    std::string how;  // "copy", "move", "elem ..."
    std::string key;
    bool operator==(const Seg& o) const { return id == o.id && how == o.how && key == o.key; }
};
struct ConC : Payload // contents of a container
{
    CK k = C_EMPTY;
    int d = 0;
    bool behind = false;
    std::string text;
    std::vector<Seg> segs;
    int nonempty = -1;
    int extra = 0;
    int part = 0, src = 0; // see elems.cpp
    bool same(const ConC& o) const { return k == o.k && part == o.part && src == o.src && d == o.d && behind == o.behind && text == o.text && segs == o.segs && nonempty == o.nonempty && extra == o.extra; }
};
inline const StrC& strC(const Val& v) { return *static_cast<const StrC*>(v.p.get()); }
inline const ConC& conC(const Val& v) { return *static_cast<const ConC*>(v.p.get()); }
inline Val mkStr(StrC s) { Val v; v.k = V_STR; v.p = std::make_shared<StrC>(std::move(s)); return v; }
inline Val mkStrConst(std::string t) { StrC s; s.k = S_CONST; s.text = std::move(t); return mkStr(s); }
inline Val mkStrAny(std::string why = "") { StrC s; s.text = std::move(why); return mkStr(s); }
inline Val mkCon(VK k, ConC c) { Val v; v.k = k; v.p = std::make_shared<ConC>(std::move(c)); return v; }

// ---------------------------------------------------------------- state
namespace llvm { class Function; class BasicBlock; class Instruction; class Value; class GlobalVariable; class Type; class CallBase; class Module; class DataLayout; class Constant; }

struct Cell { int off; int size; Val v; };
struct Obj
{
    // 0 stack, 1 heap, 2 harness, 3 exception, 4 global, 5 element of a container known only as a whole,
    // 6 the identity of such an element, 7 element of a container known element by element
    uint8_t kind = 0;
    int ghost = 0;  // kind 5 and 6: the entity whose element this is
    int entOf = 0;  // kind 5: its identity, if it has one
    int prev = 0;   // kind 5: the element before it, as long as that is there
    i64 idx = -1;   // kind 5: how many elements are before it (-1: unknown); kind 6: its index; IDX_KEY: by key
    bool frozen = false;
    uint8_t est = 0;
    bool first = false, isMap = false;
    int owner = 0, ooff = 0;
    bool dead = false;
    bool written = false;
    int size = 0;
    i64 tag = 0; // harness use; for kind 4 the global
    std::vector<Cell> cells; // sorted by off, disjoint
};
struct FnInfo;
struct Frame
{
    FnInfo* fn = nullptr;
    const llvm::BasicBlock* bb = nullptr;
    const llvm::Instruction* pc = nullptr;
    std::vector<Val> env;
    std::vector<int> allocas;
    int stage = 0;        // of a model in progress
    std::vector<Val> tmp; // of a model in progress
};
struct Buf
{
    int kind = 0; // 0 bytes
    bool ctx = false; // text precedes position 0
    i64 base = 0;
    i64 hi = -1;             // the furthest position held when the window was last looked through
    std::vector<int> win;    // byte variables at base..
    i64 rmin = 0, rmax = -1; // number of further elements; rmax -1 unbounded
    i64 known = 0;           // at least so many, where rmin has been rounded down
    std::vector<std::pair<i64, int>> old; // bytes at remembered positions before base
    i64 tag = 0;
};
struct SFrame
{
    int type = 'T';
    int n = 0;       // members completed: 0, 1, 2 = more
    int pend = 0;    // kind of the completed but not yet stored member
    i64 ps = UNKPOS, pe = UNKPOS; // its text
    i64 ks = UNKPOS, ke = UNKPOS; // key text
};
struct SpecS
{
    int mode = 0, aux = 0, aux2 = 0, cm = 0;
    bool lost = false; // the program passed elements without storing them: only acceptance is followed
    std::vector<SFrame> fr;
    i64 x[4] = { UNKPOS, UNKPOS, UNKPOS, UNKPOS }; // positions
    std::vector<i64> v;
};
struct State
{
    std::vector<std::shared_ptr<Frame>> st;
    std::vector<std::pair<int, std::shared_ptr<Obj>>> objs; // sorted
    std::vector<std::pair<int, std::shared_ptr<Buf>>> bufs; // sorted
    std::vector<std::pair<int, M256>> vars;                 // sorted
    std::vector<std::pair<i64, i64>> toks;                  // decided tokens, sorted
    SpecS sp;
    std::vector<int> choices;
    size_t choiceAt = 0;
    std::vector<std::string> labels; // since the last node
    int excObj = 0;                  // exception in flight (0: none)
    std::string excType;
    std::vector<std::pair<int, std::string>> caught; // exception objects being handled
    int nextId = 1;
    int swarStop = 99;     // first byte of the current block known to be wanted
    bool progress = false; // input consumed since the last node
    Val ret;               // once the analysed function has returned
    bool thrown = false;
    bool fuzzy = false; // got here by a decision on a value that is not known: a deviation need not be real

    Frame& top() { auto& f = st.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
    const Frame& topc() const { return *st.back(); }
    Obj* obj(int id); // mutable, null if absent
    const Obj* objc(int id) const;
    Buf* buf(int id);
    const Buf* bufc(int id) const;
    M256 setOf(int var) const;
    void setSet(int var, const M256& m);
    int newVar(const M256& m) { int v = nextId++; vars.push_back({ v, m }); return v; }
    int newObj(int size, int kind);
    int newBuf();
    i64 tokGet(i64 id, i64 dflt) const { for (auto& t : toks) if (t.first == id) return t.second; return dflt; }
    void tokSet(i64 id, i64 v) { for (auto& t : toks) if (t.first == id) { t.second = v; return; } toks.push_back({ id, v }); std::sort(toks.begin(), toks.end()); }
};

// ---------------------------------------------------------------- control flow of the interpreter
struct SplitVar { int var; M256 mask; };
struct SplitRem { int buf; i64 at, k = 0; }; // does the input end at this position or before, or after it
struct NeedChoice { int n; std::string what; };
struct Unmodelled { std::string msg; };
struct Kill { };                       // path ends silently
struct Bug { std::string rule, msg; }; // path ends with a finding

Bit norm(const State& s, Bit b);

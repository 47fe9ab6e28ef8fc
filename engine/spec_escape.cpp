#include "spec_escape.h"
using namespace llvm;
static StrC any(const std::string& why) { StrC c; c.k = S_ANY; c.text = why; c.d = 1; return c; }
static M256 unsafe() { M256 m = M256::range(0, 31); m.set('"'); m.set('\\'); return m; }

StrC SpecEscape::begin(bool prefixed)
{
    StrC c;
    c.k = S_OUT;
    c.buf = in;
    c.q = prefixed;
    return c;
}
// is this the end of the input?
bool SpecEscape::atEnd(State& s, i64 p)
{
    const Buf* b = s.bufc(in);
    i64 e = b->base + (i64)b->win.size();
    if (p < e) return false;
    if (p > e && b->rmax == p - e && b->rmin == p - e) return true;
    if (p > e && b->rmin > p - e) return false;
    if (p > e && !(b->rmax >= 0 && b->rmax < p - e)) throw SplitRem { in, e };
    if (p > e) throw Bug { "content", "writes bytes that are behind the end of the text" };
    if (b->rmax == 0) return true;
    if (b->rmin > 0) return false;
    throw SplitRem { in, e };
}
bool SpecEscape::covered(State& s, i64 pos)
{
    for (auto& o : s.objs) {
        if (o.second->dead) continue;
        for (auto& c : o.second->cells) if (c.v.k == V_STR && strC(c.v).k == S_OUT && strC(c.v).p > pos) return true;
    }
    return false;
}
int SpecEscape::varAt(State& s, i64 p)
{
    const Buf* b = s.bufc(in);
    i64 i = p - b->base;
    if (i >= 0 && i < (i64)b->win.size()) return b->win[i];
    if (i < 0) for (auto& o : b->old) if (o.first == p) return o.second;
    return -1;
}
bool SpecEscape::is(State& s, int v, const M256& m)
{
    M256 set = s.setOf(v);
    if (set.subset(m)) return true;
    if ((set & m).none()) return false;
    throw SplitVar { v, m };
}
void SpecEscape::retire(State& s, int, i64 pos, int var)
{
    if (covered(s, pos) || !is(s, var, unsafe())) return;
    if (s.sp.x[0] == UNKPOS || covered(s, s.sp.x[0])) s.sp.x[0] = pos;
}
bool SpecEscape::pin(State& s, int, i64 pos)
{
    int v = varAt(s, pos);
    return v >= 0 && !(s.setOf(v) & unsafe()).none() && !covered(s, pos);
}
StrC SpecEscape::appendRange(State& s, const StrC& c0, int buf, i64 p, i64 q)
{
    appends++;
    if (buf != in) return any("text of something else");
    StrC c = c0;
    if (c.k == S_CONST && (c.text.empty() || c.text == prefix)) {
        bool pre = !c.text.empty();
        c = begin(pre);
        c.p = s.sp.x[1];
    }
    if (c.k != S_OUT) return c.k == S_ANY ? c : any("concatenation");
    if (!isEndPos(p) && p == q) return c0;
    if (isEndPos(p)) return c0;
    if (!c.text.empty()) throw Bug { "content", "text follows an escape that is not complete" };
    const Buf* b = s.bufc(in);
    if (isEndPos(q)) {
        i64 e = b->base + (i64)b->win.size();
        if (q != ENDPOS) return any("a part of the text");
        if (b->rmax != 0) {
            if (atEnd(s, e)) { }
            throw Bug { "content", "bytes are copied without having been looked at, so that bytes that need an escape are copied too" };
        }
        q = e;
        if (p == q) return c0;
    }
    if (p > q) throw Bug { "undefined", "a range with its end before its beginning" };
    if (p != c.p) throw Bug { "content", p > c.p ? "a part of the text is left out" : "a part of the text is written twice" };
    if (s.sp.x[0] != UNKPOS && s.sp.x[0] >= p && s.sp.x[0] < q) throw Bug { "content", "a byte that needs an escape is copied as it is" };
    for (i64 i = std::max(p, b->base); i < q; i++) {
        int v = varAt(s, i);
        if (v < 0) throw Bug { "content", "bytes are copied without having been looked at, so that bytes that need an escape are copied too" };
        if (is(s, v, unsafe())) throw Bug { "content", "a byte that needs an escape is copied as it is" };
    }
    if (c.back) throw Bug { "content", "text follows the closing quote" };
    c.p = q;
    return c;
}
// an escape sequence has got another byte
StrC SpecEscape::escape(State& s, StrC c)
{
    static const char E[] = "\"\\/bfnrt", D[] = "\"\\/\b\f\n\r\t";
    std::string t = c.text;
    if (t.size() < 2) return c;
    std::vector<int> bytes;
    if (t[1] != 'u') {
        const char* e = t[1] ? strchr(E, t[1]) : nullptr;
        if (!e) throw Bug { "content", "an escape sequence that JSON does not have" };
        bytes = { (unsigned char)D[e - E] };
    }
    else {
        if (t.size() > 2 && !isxdigit((unsigned char)t.back())) throw Bug { "content", "\\u is followed by something else than four hexadecimal digits" };
        if (t.size() < 6) return c;
        unsigned u = (unsigned)std::stoul(t.substr(2), nullptr, 16);
        if (u >= 0xD800 && u < 0xE000) throw Unmodelled { "an escape of a surrogate" };
        if (u < 0x80) bytes = { (int)u };
        else if (u < 0x800) bytes = { (int)(0xC0 | u >> 6), (int)(0x80 | (u & 63)) };
        else bytes = { (int)(0xE0 | u >> 12), (int)(0x80 | (u >> 6 & 63)), (int)(0x80 | (u & 63)) };
    }
    for (size_t k = 0; k < bytes.size(); k++) {
        if (atEnd(s, c.p + (i64)k)) throw Bug { "content", "an escape sequence that stands for nothing in the text" };
        int v = varAt(s, c.p + (i64)k);
        if (v < 0) {
            if (c.p + (i64)k >= s.bufc(in)->base) throw SplitRem { in, s.bufc(in)->base + (i64)s.bufc(in)->win.size() };
            throw Unmodelled { "an escape for a byte that was passed long ago" };
        }
        M256 m;
        m.set(bytes[k]);
        if (!is(s, v, m)) throw Bug { "content", "an escape sequence that stands for another byte than the one in the text" };
    }
    c.p += (i64)bytes.size();
    c.text.clear();
    return c;
}
StrC SpecEscape::appendByte(State& s, const StrC& c0, const Val& byte)
{
    appends++;
    StrC c = c0;
    if (c.k == S_CONST) {
        if (byte.isInt() && c.text.size() < prefix.size() && prefix.compare(0, c.text.size(), c.text) == 0 && prefix[c.text.size()] == (char)byte.a) {
            c.text += (char)byte.a;
            return c;
        }
        if (!c.text.empty() && c.text != prefix) return any("concatenation");
        bool pre = !c.text.empty();
        c = begin(pre);
        c.p = s.sp.x[1];
    }
    if (c.k != S_OUT) return c.k == S_ANY ? c : any("concatenation");
    if (!c.text.empty()) {
        Val x = I->concretize(s, byte);
        if (!x.isInt()) return any("an unknown byte in an escape sequence");
        c.text += (char)x.a;
        return escape(s, c);
    }
    if (atEnd(s, c.p)) {
        Val x = I->concretize(s, byte);
        if (!x.isInt()) return any("an unknown byte after the text");
        if ((c.q || prefix.empty()) && c.back < (int)suffix.size() && suffix[c.back] == (char)x.a) { c.back++; return c; }
        throw Bug { "content", "a byte is written that is not in the text" };
    }
    auto got = bitsOf(byte);
    if (byte.isInt() && (byte.a & 255) == '\\') { c.text = "\\"; return c; }
    if (got.size() != 8) return any("an unknown byte");
    int v = varAt(s, c.p);
    if (v < 0) {
        if (c.p >= s.bufc(in)->base) throw SplitRem { in, s.bufc(in)->base + (i64)s.bufc(in)->win.size() };
        if (byte.isInt()) throw Bug { "content", "a byte is written that need not be in the text" };
        throw Unmodelled { "a byte that was passed long ago" };
    }
    for (int k = 0; k < 8; k++) {
        M256 m;
        for (int x = 0; x < 256; x++) if (x >> k & 1) m.set(x);
        Bit g = norm(s, got[k]), w = norm(s, Bit { 3, v, internMask(m) });
        if (g == w) continue;
        if (g.t == 2) return any("an unknown byte");
        Bit x = I->bitXor(s, g, w);
        if (x.t == 0) continue;
        if (x.t == 3) throw SplitVar { x.var, maskOf(x.mask) };
        if (x.t == 2 && g.t == 3) throw SplitVar { g.var, maskOf(g.mask) };
        throw Bug { "content", "a byte is written that differs from the one in the text" };
    }
    if (is(s, v, unsafe())) throw Bug { "content", "a byte that needs an escape is written as it is" };
    c.p++;
    return c;
}
StrC SpecEscape::appendStr(State& s, const StrC& c, const StrC& t)
{
    if (t.k == S_CONST) {
        StrC r = c;
        for (char ch : t.text) r = appendByte(s, r, mkInt(8, (unsigned char)ch));
        return r;
    }
    if (t.k == S_BYTES) {
        StrC r = c;
        for (auto& y : t.bytes) r = appendByte(s, r, mkBits({ y.begin(), y.end() }));
        return r;
    }
    if (t.k == S_INPUT) return appendRange(s, c, t.buf, 0, ENDPOS);
    if (t.k == S_OUT && c.k == S_CONST && !t.q && !t.d && (c.text.empty() || c.text == prefix)) { StrC r = t; r.q = !c.text.empty(); return r; }
    if (t.k == S_OUT && c.k == S_OUT && c.p == s.sp.x[1] && !t.q && !t.d && !c.back && c.text.empty()) { StrC r = t; r.q = c.q; r.d = c.d; return r; }
    return Spec::appendStr(s, c, t);
}
bool SpecEscape::emptyText(State& s, const StrC& c, bool& r)
{
    if (c.d) r = I->choose(s, 2, "text is empty");
    else r = !c.q && c.text.empty() && !c.back && c.p == s.sp.x[1];
    return true;
}
void SpecEscape::finishThrow(State&, const std::string& type) { throw Bug { "throw", "ends with an exception (" + type + ")" }; }
bool SpecEscape::call(State& s, const std::string& name, const CallBase&, std::vector<Val>& a, Val&)
{
    if (name == "esc_open") { StrC c = begin(false); c.d = 1; c.p = s.sp.x[1]; I->putStr(s, a[0], c); return true; }
    if (name == "esc_frame") { prefix = I->cstr(s, a[0]).text; suffix = I->cstr(s, a[1]).text; return true; }
    if (name != "esc_done") return false;
    musts++;
    StrC c = I->strAt(s, a[0]);
    if (c.k == S_CONST) {
        if (c.text != prefix + suffix) throw Bug { "content", "the text is not that of the string" };
        if (!atEnd(s, s.sp.x[1])) throw Bug { "content", "the text of a string that is not empty is missing" };
        return true;
    }
    if (c.k != S_OUT) throw Unmodelled { c.text };
    if (!c.text.empty()) throw Bug { "content", "an escape sequence is not complete" };
    if (!atEnd(s, c.p)) throw Bug { "content", "the end of the text is left out" };
    if (!c.d && (bool)c.q != !prefix.empty()) throw Bug { "content", "no opening quote" };
    if (c.back != (int)suffix.size()) throw Bug { "content", "no closing quote" };
    return true;
}

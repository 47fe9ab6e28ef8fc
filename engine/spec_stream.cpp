#include "spec_stream.h"
using namespace llvm;
static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }

// bytes of the stream from p on
static StrC rest(int buf, i64 p)
{
    StrC c;
    c.buf = buf;
    if (p == 0) { c.k = S_INPUT; return c; }
    c.k = S_RAW;
    c.p = p;
    c.q = ENDPOS;
    return c;
}
static StrC filled(int buf, i64 more)
{
    StrC c;
    c.k = S_FILL;
    c.buf = buf;
    c.d = more;
    return c;
}
void SpecStream::init(State& s)
{
    SpecHarness::init(s);
    in = s.newBuf();
    obj = s.newObj(600, 2);
    s.sp.aux = s.sp.aux2 = s.sp.cm = s.sp.mode = 0;
    if (!file) open(s, mkPtr(P_OBJ, obj, 0), mkInt(32, 0));
}
// lets the virtual base be found
void SpecStream::open(State& s, const Val& self, const Val&)
{
    int v = s.newObj(64, 2);
    cellPut(*s.obj(v), 8, 8, mkInt(64, 0));
    cellPut(*s.obj((int)self.a), (int)self.b, 8, mkPtr(P_OBJ, v, 32));
}
bool SpecStream::atEnd(State& s, i64 p)
{
    const Buf* b = s.bufc(in);
    i64 e = b->base + (i64)b->win.size();
    if (p < e || b->rmin > p - e) return false;
    if (b->rmax >= 0 && b->rmax <= p - e) return true;
    throw SplitRem { in, p };
}
bool SpecStream::starts(State& s, const std::string& t)
{
    for (size_t i = 0; i < t.size(); i++) {
        if (atEnd(s, (i64)i)) return false;
        M256 m;
        m.set((unsigned char)t[i]);
        int v = I->byteAt(s, in, (i64)i);
        M256 set = s.setOf(v);
        if ((set & m).none()) return false;
        if (set.subset(m)) continue;
        // (the byte may have been made just now)
        bool is = I->choose(s, 2, "the byte order mark");
        s.setSet(v, is ? set & m : set & ~m);
        if (!is) return false;
    }
    return true;
}
bool SpecStream::strings(State& s, FnInfo& f, std::vector<Val>& a, Val& ret)
{
    const std::string &B = f.base, &P = f.params;
    if (a.empty() || !a[0].isPtr(P_OBJ)) return false;
    auto at = [&](size_t i) { const Obj* o = s.objc((int)a[i].a); return a[i].isPtr(P_OBJ) && o && cellGet(*o, (int)a[i].b, 32).k == V_STR; };
    if (B == "substr" && a.size() == 4 && at(1)) {
        StrC c = I->strAt(s, a[1]);
        if ((c.k != S_INPUT && c.k != S_PAD) || !a[2].isInt()) return false;
        i64 p = a[2].a, n = a[3].isInt() ? (i64)a[3].a : a[3].k == V_DIFF && isEndPos(a[3].c) ? -1 : -2;
        if (p < 0 || p > 8 || n == -2) return false;
        for (i64 i = 0; i < p; i++) if (atEnd(s, i)) return false;
        StrC r = rest(in, p);
        if (n != -1) {
            if (n < 0 || n > 8) return false;
            i64 q = p;
            while (q < p + n && !atEnd(s, q)) q++;
            r.k = S_RAW;
            r.p = p;
            r.q = q;
        }
        I->putStr(s, a[0], r);
        return true;
    }
    if (B == "basic_string" && a.size() >= 3 && a[1].k == V_DIFF && P.compare(0, 20, "(unsigned long, char") == 0 && a[1].b == 0 && a[1].c == ENDPOS && a[1].d >= 0) {
        I->putStr(s, a[0], filled(in, a[1].d));
        return true;
    }
    if (!at(0)) return false;
    StrC c = I->strAt(s, a[0]);
    if (B == "resize") {
        if (c.k == S_CONST && c.text.empty() && a[1].k == V_DIFF) {
            if (!(a[1].b == 0 && a[1].c == ENDPOS && a[1].d >= 0)) return false;
            I->putStr(s, a[0], filled(in, a[1].d));
            return true;
        }
        if (c.k == S_CONST && c.text.empty() && a[1].isInt() && (u64)a[1].a <= 64) { // the size is known
            i64 n = a[1].a, len = 0;
            while (len <= n && !atEnd(s, len)) len++;
            if (len > n) return false;
            I->putStr(s, a[0], filled(in, n - len));
            return true;
        }
        if (c.k == S_PAD && a[1].k == V_DIFF && a[1].b == 0 && a[1].c == ENDPOS && a[1].d == 0) { I->putStr(s, a[0], rest(in, 0)); return true; }
        if ((c.k == S_INPUT || c.k == S_FILL) && a[1].k == V_DIFF && a[1].b == 0 && a[1].c == ENDPOS && a[1].d == c.d) return true;
        return false;
    }
    if (c.k == S_FILL || c.k == S_PAD) {
        if (B == "size" || B == "length") { Val r = mkDiff(in, 0, ENDPOS); r.d = c.d; ret = I->concretize(s, r); return true; }
        if (B == "empty") { bool e = c.d == 0 && atEnd(s, 0); ret = mkInt(1, e); return true; }
        if ((B == "operator[]" || B == "at" || B == "front") && (B == "front" || (a[1].isInt() && a[1].a == 0)) && c.k == S_FILL) {
            if (B == "at" && c.d == 0 && atEnd(s, 0)) return false;
            ret = mkPtr(P_SD, a[0].a, a[0].b, 0);
            return true;
        }
        if (c.k == S_PAD && (B == "operator[]" || B == "at" || B == "front") && (B == "front" || (a[1].isInt() && a[1].a >= 0 && a[1].a < 3))) {
            i64 i = B == "front" ? 0 : a[1].a;
            for (i64 k = 0; k <= i; k++) if (atEnd(s, k)) throw Unmodelled { "the end of a text that was cut" };
            ret = mkPtr(P_BUF, in, i);
            return true;
        }
        if (c.k == S_PAD && (B == "begin" || B == "cbegin" || B == "data" || B == "c_str")) { ret = mkPtr(P_BUF, in, 0); return true; }
        if (c.k == S_PAD && has(B, "operator") && (has(B, "view") || has(f.dem, "operator std::basic_string_view") || has(f.dem, "::operator SV()"))) { ret = mkAgg({ I->concretize(s, mkDiff(in, 0, ENDPOS)), mkPtr(P_BUF, in, 0) }); return true; }
        if (c.k == S_PAD && (B == "end" || B == "cend")) { ret = mkPtr(P_BUF, in, ENDPOS); return true; }
    }
    if (B == "erase" && (c.k == S_INPUT || c.k == S_PAD)) {
        i64 p = -1;
        if (has(P, "unsigned long") && a.size() >= 3 && a[1].isInt() && a[1].a == 0 && a[2].isInt()) p = a[2].a;
        if (a.size() >= 3 && a[1].isPtr(P_BUF) && a[2].isPtr(P_BUF) && a[1].b == 0 && !isEndPos(a[2].b)) p = a[2].b;
        if (p < 0 || p > 8) return false;
        for (i64 i = 0; i < p; i++) if (atEnd(s, i)) return false;
        I->putStr(s, a[0], rest(in, p));
        ret = a[0];
        return true;
    }
    if (B == "compare" && (c.k == S_INPUT || c.k == S_PAD)) {
        if (P == "(unsigned long, unsigned long, char const*)" && a[1].isInt() && a[1].a == 0 && a[2].isInt()) {
            StrC t = I->cstr(s, a[3]);
            if (t.k != S_CONST || (i64)t.text.size() != a[2].a || t.text.size() > 3) return false;
            ret = starts(s, t.text) ? mkInt(32, 0) : mkInt(32, 1);
            return true;
        }
        return false;
    }
    if (B == "rfind" && (c.k == S_INPUT || c.k == S_PAD) && P == "(char const*, unsigned long)" && a[2].isInt() && a[2].a == 0) {
        StrC t = I->cstr(s, a[1]);
        if (t.k != S_CONST || t.text.size() > 3) return false;
        ret = mkInt(64, starts(s, t.text) ? 0 : (u64)-1);
        return true;
    }
    return false;
}
bool SpecStream::call(State& s, const std::string& n, const CallBase& cb, std::vector<Val>& a, Val& ret)
{
    const Function* F = cb.getCalledFunction();
    if (n == "stream_result") {
        // (value or null, mark, comments)
        Val b = I->concretize(s, a[1]), c = I->concretize(s, a[2]);
        if (!b.isInt() || !c.isInt()) throw Unmodelled { "options of the result" };
        musts++;
        bool none = a[0].isPtr(P_NULL);
        if (s.sp.aux != GOOD && s.sp.aux != SHORT && s.sp.aux != 0) {
            static const char* const W[] = { "", "", "", "that cannot be repositioned", "that is broken", "that fails while it is read", "that is a directory", "that cannot be opened" };
            if (!none) throw Bug { "content", std::string("a value from a stream ") + W[s.sp.aux] };
            return true;
        }
        if (s.sp.aux == 0) {
            if (file) throw Bug { "content", "the file is not opened" };
            throw Bug { "content", "the stream is not read" };
        }
        if (none && s.sp.aux == SHORT && !s.sp.cm) return true;
        if (!s.sp.cm) throw Bug { "content", "the text is not parsed although the stream delivers it" };
        if (((s.sp.cm & 1) != 0) != (bool)c.a) throw Bug { "content", c.a ? "comments are not accepted although that was asked for" : "comments are accepted although that was not asked for" };
        int cls = s.sp.cm >> 1;
        bool mark = cls == 3 || !b.a ? false : starts(s, "\xEF\xBB\xBF");
        if (cls == 3) throw Bug { "content", "the text parsed is not what the stream delivers" };
        if (mark && cls != 2) throw Bug { "content", "the byte order mark is not skipped although that was asked for" };
        if (!mark && cls == 2) throw Bug { "content", b.a ? "three bytes are skipped that are no byte order mark" : "three bytes are skipped although that was not asked for" };
        if (none != !s.sp.mode) throw Bug { "content", none ? "the value is lost" : "a value although the parser gave none" };
        if (!none) {
            Val r, id = mkInt(32, 900);
            std::vector<Val> x { a[0], id };
            SpecHarness::call(s, "same_value", cb, x, r);
            if (!r.isInt()) throw Unmodelled { "whether the value is the one of the parser" };
            if (!r.a) throw Bug { "content", "the value is not the one of the parser" };
        }
        return true;
    }
    if (!F) return SpecHarness::call(s, n, cb, a, ret);
    FnInfo* f = I->info(F);
    const std::string &D = f->dem, &B = f->base;
    if (B == "parse" && D.compare(0, 12, "json::parser") == 0 || (B == "parse" && has(D, " json::parser<"))) {
        bool jsonc = has(D, "json::parser<true"), strict = has(D, "json::parser<false");
        if (jsonc == strict || a.size() < 2 || !F->hasParamAttribute(0, Attribute::StructRet)) throw Unmodelled { "this parser" };
        StrC c;
        const Obj* o = a[1].isPtr(P_OBJ) ? s.objc((int)a[1].a) : nullptr;
        if (!o) throw Unmodelled { "what is parsed" };
        if (cellGet(*o, (int)a[1].b, 32).k == V_STR) c = I->strAt(s, a[1]);
        else if (has(f->params, "SV const&") || has(f->params, "string_view")) {
            Val len = I->load(s, a[1], 8, false), p = I->load(s, I->ptrAdd(s, a[1], 8), 8, true);
            c = I->textOf(s, p, len);
        }
        int cls = 0;
        if (c.k == S_INPUT || c.k == S_PAD) cls = 1;
        else if (c.k == S_CONST && c.text.empty() && atEnd(s, 0)) cls = 1;
        else if (c.k == S_RAW && c.p == 0 && !isEndPos(c.q) && atEnd(s, c.q)) cls = 1;
        else if (c.k == S_RAW && c.p == 3 && (isEndPos(c.q) ? c.q == ENDPOS : atEnd(s, c.q))) cls = 2;
        else if (c.k == S_CONST && c.text.empty() && !atEnd(s, 2) && atEnd(s, 3) && starts(s, "\xEF\xBB\xBF")) cls = 2;
        else if (c.k == S_RAW || c.k == S_FILL || c.k == S_CONST) cls = 3;
        else throw Unmodelled { "what is parsed: " + c.text };
        if (s.sp.cm) throw Unmodelled { "parses twice" };
        bool some = I->choose(s, 2, "the parser gives a value");
        s.sp.cm = cls * 2 + (jsonc ? 1 : 0);
        s.sp.mode = some;
        if (some) {
            std::vector<Val> x { a[0], mkInt(32, 16), mkInt(32, 900) };
            SpecHarness::call(s, "nd_value", cb, x, ret);
        }
        I->store(s, I->ptrAdd(s, a[0], I->lay.size), mkInt(8, some), 1);
        ret = Val();
        return true;
    }
    bool io = false; // members of a stream class
    for (const char* c : { "std::istream", "std::ifstream", "std::ios", "std::fstream", "std::filebuf", "std::basic_istream<", "std::basic_ifstream<", "std::basic_ios<", "std::basic_fstream<", "std::basic_filebuf<", "std::ios_base" })
        if (f->cls == c || (std::string(c).back() == '<' && f->cls.compare(0, strlen(c), c) == 0)) io = true;
    if (io) {
        if (a.empty() || !a[0].isPtr(P_OBJ)) throw Unmodelled { D };
        int& fl = s.sp.aux2;
        auto make = [&](bool f) {
            if (s.sp.aux) return;
            int k = I->choose(s, f ? 5 : 6, "what the stream is");
            static const int A[] = { GOOD, SHORT, NOSEEK, BROKEN, READFAIL, DIR }, G[] = { GOOD, SHORT, READFAIL, DIR, CLOSED };
            s.sp.aux = f ? G[k] : A[k];
            if (s.sp.aux == SHORT) { Buf* b = s.buf(in); b->rmin = std::max<i64>(b->rmin, 3); } // (not so short that the mark is cut)
            if (s.sp.aux == BROKEN) fl |= BAD;
            if (s.sp.aux == CLOSED) fl |= FAIL;
        };
        if (B == "basic_ifstream" || B == "open") {
            if (f->params == "()") { open(s, a[0], Val()); return true; }
            if (s.sp.aux) throw Unmodelled { "a second stream" };
            if (a.size() < 3 || !a[2].isInt()) throw Unmodelled { D };
            if (!(a[1].isPtr(P_OBJ) && a[1].a == obj && a[1].b == 0)) throw Unmodelled { "opens something else" };
            if (a[2].a & (1 | 16 | 32)) throw Bug { "content", "opens the file for writing" }; // app, out, trunc
            make(true);
            if (B == "basic_ifstream") open(s, a[0], a[2]);
            if (a[2].a & 2) fl |= ATEND;
            return true;
        }
        if (B == "~basic_ifstream" || B == "close") return true;
        if (file && !s.sp.aux) throw Unmodelled { "a stream without a file" };
        make(false);
        int kind = s.sp.aux;
        if (B == "is_open") { ret = mkInt(1, kind != CLOSED); return true; }
        if (B == "bad") { ret = mkInt(1, (fl & BAD) != 0); return true; }
        if (B == "fail" || B == "operator!") { ret = mkInt(1, (fl & (BAD | FAIL)) != 0); return true; }
        if (B == "eof") { ret = mkInt(1, (fl & END) != 0); return true; }
        if (B == "good" ) { ret = mkInt(1, (fl & (BAD | FAIL | END)) == 0); return true; }
        if (B.compare(0, 8, "operator") == 0 && has(D, "::operator bool")) { ret = mkInt(1, (fl & (BAD | FAIL)) == 0); return true; }
        if (B == "rdstate") { ret = mkInt(32, (u64)((fl & BAD ? 1 : 0) | (fl & END ? 2 : 0) | (fl & FAIL ? 4 : 0))); return true; }
        if (B == "clear" && a.size() > 1 && a[1].isInt() && a[1].a == 0) {
            if (kind != BROKEN && kind != CLOSED) fl &= ~(FAIL | BAD | END);
            return true;
        }
        if (B == "seekg" && (f->params == "(long, std::_Ios_Seekdir)" || has(f->params, "fpos"))) {
            fl &= ~END;
            if (kind == NOSEEK) fl |= FAIL;
            Val off = I->concretize(s, a[1]);
            if (!off.isInt() || off.a != 0) throw Unmodelled { "a seek to somewhere inside" };
            ret = a[0];
            if (fl & (FAIL | BAD)) return true;
            if (has(f->params, "fpos") || (a[2].isInt() && a[2].a == 0)) fl &= ~ATEND;
            else if (a[2].isInt() && a[2].a == 2) fl |= ATEND;
            else if (!(a[2].isInt() && a[2].a == 1)) throw Unmodelled { "a seek" };
            return true;
        }
        if (B == "tellg") {
            Val r = mkInt(64, (u64)-1);
            if (!(fl & (FAIL | BAD)) && kind != NOSEEK) {
                r = mkInt(64, 0);
                if (fl & ATEND) {
                    if (kind == DIR) r = mkInt(64, 0x7fffffffffffffffull);
                    else {
                        r = mkDiff(in, 0, ENDPOS);
                        r.d = kind == SHORT;
                        r = I->concretize(s, r);
                    }
                }
            }
            ret = mkAgg({ r, mkInt(64, 0) });
            return true;
        }
        if (B == "read" && a.size() == 3) {
            ret = a[0];
            if (fl & (FAIL | BAD)) { fl |= FAIL; return true; }
            if (kind == NOSEEK) throw Unmodelled { "reading without seeking" };
            Val len = a[2];
            if (!a[1].isPtr(P_SD) || a[1].c != 0) throw Unmodelled { "reading to somewhere else than a text" };
            Val at = mkPtr(P_OBJ, a[1].a, a[1].b);
            StrC c = I->strAt(s, at);
            if (kind == DIR) { fl |= BAD; return true; }
            if (fl & ATEND) { fl |= END | FAIL; return true; }
            Val size = mkDiff(in, 0, ENDPOS);
            i64 more = 0;
            if (c.k == S_FILL) { size.d = c.d; more = c.d; }
            else if (c.k == S_CONST && c.text.empty() && atEnd(s, 0) && len.isInt() && len.a == 0) { if (kind == READFAIL) fl |= BAD; return true; }
            else if (c.k == S_CONST && c.text.empty()) throw Bug { "bounds", "the text read is put where there is no room for it" };
            else throw Unmodelled { "reading over a text" };
            len = I->concretize(s, len);
            size = I->concretize(s, size);
            bool same = len.k == V_DIFF ? size.k == V_DIFF && len.b == size.b && len.c == size.c && len.d == size.d : len.isInt() && size.isInt() && len.a == size.a;
            if (!same) {
                if (len.k == V_DIFF && size.k == V_DIFF && len.b == 0 && len.c == ENDPOS && len.d > size.d) throw Bug { "bounds", "more is read than there is room for" };
                if (!(len.k == V_DIFF && size.k == V_DIFF && len.b == 0 && len.c == ENDPOS && len.d < size.d)) throw Unmodelled { "reading a part" };
                return true; // the text is not all of it
            }
            if (kind == READFAIL) { fl |= BAD; return true; }
            if (more) fl |= END | FAIL;
            StrC r = rest(in, 0);
            if (more) { r = filled(in, more); r.k = S_PAD; }
            I->putStr(s, at, r);
            return true;
        }
        if (B == "gcount") {
            ret = mkDiff(in, 0, ENDPOS);
            if (kind != GOOD && kind != SHORT) ret = mkInt(64, 0);
            ret = I->concretize(s, ret);
            return true;
        }
        throw Unmodelled { D };
    }
    if (f->cls == "STR" || has(f->cls, "basic_string<char")) {
        if (strings(s, *f, a, ret)) return true;
    }
    if ((n == "std::string operator==" || n == "std::string operator!=") && a.size() >= 2) {
        StrC x = I->strAt(s, a[0]), y = has(I->info(F)->params, "STR const&, STR const&") ? I->strAt(s, a[1]) : I->cstr(s, a[1]);
        if (x.k == S_CONST) std::swap(x, y);
        if (x.k == S_RAW || x.k == S_PAD || x.k == S_FILL || x.k == S_INPUT) {
            if (x.k != S_RAW || y.k != S_CONST || x.p != 0 || isEndPos(x.q) || x.q > 3) throw Unmodelled { "texts are compared" };
            bool e = (size_t)x.q == y.text.size() && starts(s, y.text);
            ret = mkInt(1, e == (n == "std::string operator=="));
            return true;
        }
    }
    return SpecHarness::call(s, n, cb, a, ret);
}

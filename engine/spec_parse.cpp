#include "spec_parse.h"
using namespace llvm;

static StrC anyS(std::string why, bool wrong = false) { StrC s; s.text = std::move(why); s.d = wrong; return s; }
static StrC addByte(State& s, const StrC& c, const Val& byte, const char* why)
{
    StrC r = c;
    if (c.k != S_BYTES) { r = StrC(); r.k = S_BYTES; r.text = why; }
    auto b = bitsOf(byte);
    if (b.size() != 8) return anyS("unknown byte");
    if (r.bytes.size() >= 4) return anyS(r.text, true);
    r.bytes.emplace_back();
    for (int k = 0; k < 8; k++) { r.bytes.back()[k] = norm(s, b[k]); if (r.bytes.back()[k].t == 2) return anyS("unknown byte"); }
    return r;
}

// bytes that no mode tells apart
static const std::vector<M256>& classes()
{
    static std::vector<M256> cs;
    if (!cs.empty()) return cs;
    M256 rest = M256::all();
    auto add = [&](M256 m) { cs.push_back(m); rest = rest & ~m; };
    for (const char* p = "{}[]:,\"\\/*\n0-+.eEabcdfABCDFntrusl"; *p; ++p) add(M256::of(*p));
    add(M256::str(" \t\r"));
    add(M256::of(0));
    add(M256::range('1', '7'));
    add(M256::str("89"));
    add(M256::range(1, 31) & rest);
    cs.push_back(rest);
    return cs;
}

void SpecParse::init(State& s)
{
    s.sp = SpecS();
    s.sp.mode = VAL;
    s.sp.fr.push_back(SFrame());
}
void SpecParse::kill(SpecS& sp, std::vector<Ev>& ev) const
{
    sp.mode = DEAD;
    sp.v.clear();
    sp.aux = sp.fr.size() > 1; // a container had been opened
    sp.aux2 = sp.cm = 0;
    for (auto& x : sp.x) x = UNKPOS;
    sp.lost = false;
    SFrame b;
    b.type = sp.fr[0].type;
    sp.fr.assign(1, b);
    ev.push_back({ EV_DEAD, 0, 0 });
}
static const char* LITS[] = { "null", "true", "false" };
void SpecParse::stepByte(SpecS& sp, int b, i64 pos, std::vector<Ev>& ev) const
{
    auto dead = [&] { kill(sp, ev); };
    auto done = [&](int kind, i64 ps, i64 pe) { // a value is complete
        SFrame& f = sp.fr.back();
        f.pend = kind;
        f.ps = ps;
        f.pe = pe;
        if (f.n < 2) f.n++;
        sp.mode = f.type == 'T' ? END : NEXT;
        sp.aux = sp.aux2 = 0;
        ev.push_back({ EV_DONE, (int)sp.fr.size() - 1, kind });
    };
    auto start = [&] {
        SFrame& f = sp.fr.back();
        f.pend = 0;
        f.ps = f.pe = UNKPOS;
        for (auto& x : sp.x) x = UNKPOS;
        ev.push_back({ EV_START, (int)sp.fr.size() - 1, 0 });
    };
    auto pop = [&] {
        if (sp.fr.size() == 1) { kill(sp, ev); sp.mode = OVER; return; }
        int kind = sp.fr.back().type == 'A' ? (sp.fr.back().n ? 'A' : 'a') : (sp.fr.back().n ? 'O' : 'o');
        ev.push_back({ EV_POP, (int)sp.fr.size() - 1, kind });
        sp.fr.pop_back();
        for (auto& x : sp.x) x = UNKPOS;
        done(kind, UNKPOS, UNKPOS);
    };
    bool dig = b >= '0' && b <= '9', hex = dig || (b >= 'a' && b <= 'f') || (b >= 'A' && b <= 'F');
    if (sp.mode == DEAD || sp.mode == ANY || sp.mode == OVER) return;
    if (sp.mode == STR) {
        bool key = sp.v[0];
        switch (sp.aux) {
        case 0:
            if (sp.aux2 && b != '\\') return dead();
            if (b < 32) return dead();
            if (b == '\\') { sp.aux = 1; return; }
            if (b == '"') {
                sp.x[2] = pos;
                sp.v.clear();
                if (key) {
                    sp.fr.back().ks = sp.x[0];
                    sp.fr.back().ke = pos;
                    sp.mode = COLON;
                    return;
                }
                return done('s', sp.x[0], pos);
            }
            return;
        case 1:
            if (b == 'u') { sp.aux = 10; return; }
            if (sp.aux2 || b == 0 || !strchr("\"\\/bfnrt", b)) return dead();
            sp.aux = 0;
            sp.x[1] = pos + 1;
            return;
        case 10:
            if (!hex) return dead();
            sp.aux = (b == 'd' || b == 'D') ? 12 : 11;
            if (sp.aux2 && sp.aux == 11) return dead();
            return;
        case 11:
            if (!hex) return dead();
            sp.aux = 13;
            return;
        case 12: {
            if (!hex) return dead();
            bool hi = b == '8' || b == '9' || b == 'a' || b == 'b' || b == 'A' || b == 'B';
            bool lo = !hi && !dig;
            if (lo ? !sp.aux2 : sp.aux2) return dead();
            sp.aux = hi ? 14 : lo ? 15 : 13;
            return;
        }
        case 13: case 14: case 15:
            if (!hex) return dead();
            sp.aux += 3;
            return;
        default: // 16, 17, 18: the last digit
            if (!hex) return dead();
            sp.aux2 = sp.aux == 17;
            sp.aux = 0;
            sp.x[1] = pos + 1;
            return;
        }
    }
    if (sp.mode == NUM) {
        int& a = sp.aux;
        int n = -1;
        switch (a) {
        case 0: n = b == '0' ? 1 : dig ? 2 : -1; break;
        case 1: n = b == '.' ? 3 : (b == 'e' || b == 'E') ? 5 : dig ? -2 : -1; break;
        case 2: n = b == '.' ? 3 : (b == 'e' || b == 'E') ? 5 : dig ? 2 : -1; break;
        case 3: n = dig ? 4 : -1; break;
        case 4: n = (b == 'e' || b == 'E') ? 5 : dig ? 4 : -1; break;
        case 5: n = (b == '+' || b == '-') ? 6 : dig ? 7 : -1; break;
        case 6: n = dig ? 7 : -1; break;
        default: n = dig ? 7 : -1; break;
        }
        if (n >= 0) { a = n; return; }
        bool complete = a == 1 || a == 2 || a == 4 || a == 7;
        if (!complete || n == -2) return dead();
        done('0', sp.x[0], pos);
        sp.x[0] = UNKPOS;
    }
    else if (sp.mode == LIT) {
        const char* t = LITS[sp.aux];
        if (b != (unsigned char)t[sp.aux2]) return dead();
        sp.aux2++;
        if (!t[sp.aux2]) done("ntf"[sp.aux], UNKPOS, UNKPOS);
        return;
    }
    // where white space may stand
    if (sp.cm) {
        switch (sp.cm) {
        case 1: if (b == '/') sp.cm = 2; else if (b == '*') sp.cm = 3; else dead(); return;
        case 2: if (b == '\n') sp.cm = 0; return;
        case 3: if (b == '*') sp.cm = 4; return;
        default: sp.cm = b == '/' ? 0 : b == '*' ? 4 : 3; return;
        }
    }
    if (b == ' ' || b == '\t' || b == '\r' || b == '\n') return;
    if (jsonc && b == '/') { sp.cm = 1; return; }
    SFrame& f = sp.fr.back();
    switch (sp.mode) {
    case END:
        if (b == 0) sp.mode = ANY;
        else dead();
        return;
    case VAL:
    case VALEND:
        if (b == ']' && sp.mode == VALEND) return pop();
        if (b == '[' || b == '{') {
            start();
            SFrame g;
            g.type = b == '[' ? 'A' : 'O';
            sp.fr.push_back(g);
            sp.mode = b == '[' ? VALEND : KEYEND;
            return;
        }
        if (f.type == 'T') return dead();
        if (b == '"') { start(); sp.mode = STR; sp.aux = sp.aux2 = 0; sp.x[0] = sp.x[1] = pos + 1; sp.v = { 0 }; return; }
        if (b == '-' || dig) { start(); sp.mode = NUM; sp.aux = b == '-' ? 0 : b == '0' ? 1 : 2; sp.x[0] = pos; return; }
        if (b == 'n' || b == 't' || b == 'f') { start(); sp.mode = LIT; sp.aux = b == 'n' ? 0 : b == 't' ? 1 : 2; sp.aux2 = 1; return; }
        return dead();
    case KEY:
    case KEYEND:
        if (b == '}' && sp.mode == KEYEND) return pop();
        if (b != '"') return dead();
        start();
        f.ks = f.ke = UNKPOS;
        sp.mode = STR; sp.aux = sp.aux2 = 0; sp.x[0] = sp.x[1] = pos + 1; sp.v = { 1 };
        return;
    case COLON:
        if (b != ':') return dead();
        sp.mode = VAL;
        return;
    case NEXT:
        if (f.type == 'V') { kill(sp, ev); if (b == ',' || b == ']' || b == '}') sp.mode = OVER; return; }
        if (b == ',') { sp.mode = f.type == 'A' ? (jsonc ? VALEND : VAL) : (jsonc ? KEYEND : KEY); return; }
        if (b == (f.type == 'A' ? ']' : '}')) return pop();
        return dead();
    }
}
void SpecParse::forget(State& s, const std::function<bool(StrC&)>& fs, const std::function<bool(ConC&)>& fc)
{
    for (size_t i = 0; i < s.objs.size(); i++) {
        auto& cells = s.objs[i].second->cells;
        for (size_t k = 0; k < cells.size(); k++) {
            const Val& v = cells[k].v;
            if (v.k == V_STR) {
                StrC c = strC(v);
                if (!fs(c)) continue;
                Obj* o = s.obj(s.objs[i].first);
                o->cells[k].v = mkStr(c);
            }
            else if (v.k == V_VEC || v.k == V_MAP) {
                ConC c = conC(v);
                if (!fc(c)) continue;
                VK kk = v.k;
                Obj* o = s.obj(s.objs[i].first);
                o->cells[k].v = mkCon(kk, c);
            }
        }
    }
}
static void anyC(ConC& c, const char* why)
{
    bool ne = c.k == C_BUILT;
    c = ConC();
    c.k = C_ANY;
    c.text = why;
    if (ne) c.nonempty = 1;
}
void SpecParse::apply(State& s, const std::vector<Ev>& ev)
{
    for (auto& e : ev) {
        if (e.k == EV_DEAD)
            forget(s, [](StrC& c) { if (c.k == S_RAW || c.k == S_TRANS || c.k == S_DEN) { c = anyS("text"); return true; } return false; },
                [](ConC& c) { if (c.k == C_BUILT || c.k == C_DEN) { anyC(c, "elements"); return true; } return false; });
        auto noDen = [&] {
            forget(s, [](StrC& c) { if (c.k == S_DEN) { c = anyS("text of an earlier value", true); return true; } return false; },
                [&](ConC& c) {
                    if (c.k == C_DEN) { anyC(c, "elements of an earlier value"); return true; }
                    return false;
                });
        };
        if (e.k == EV_START) {
            noDen();
            forget(s, [](StrC&) { return false; }, [&](ConC& c) { if (c.k == C_BUILT && c.d == e.d && c.behind) { anyC(c, "an element is missing"); return true; } return false; });
        }
        if (e.k == EV_POP) {
            noDen();
            forget(s, [](StrC&) { return false; }, [&](ConC& c) {
                if (c.k != C_BUILT || c.d != e.d) return false;
                if (c.behind) { anyC(c, "the last element is missing"); return true; }
                c.k = C_DEN;
                c.d = 0;
                c.nonempty = 1;
                return true;
            });
        }
        if (e.k == EV_DONE)
            forget(s, [](StrC&) { return false; }, [&](ConC& c) {
                if (c.k != C_BUILT || c.d != e.d) return false;
                if (c.behind) anyC(c, "an element is missing");
                else c.behind = true;
                return true;
            });
    }
}
static bool sameSp(const SpecS& a, const SpecS& b)
{
    if (a.mode != b.mode || a.aux != b.aux || a.aux2 != b.aux2 || a.cm != b.cm || a.lost != b.lost || a.v != b.v || a.fr.size() != b.fr.size()) return false;
    for (int i = 0; i < 4; i++) if (a.x[i] != b.x[i]) return false;
    for (size_t i = 0; i < a.fr.size(); i++) {
        auto &x = a.fr[i], &y = b.fr[i];
        if (x.type != y.type || x.n != y.n || x.pend != y.pend || x.ps != y.ps || x.pe != y.pe || x.ks != y.ks || x.ke != y.ke) return false;
    }
    return true;
}
void SpecParse::lose(State& s, bool first)
{
    SpecS& sp = s.sp;
    sp.lost = true;
    for (auto& x : sp.x) x = UNKPOS;
    for (auto& f : sp.fr) { f.ps = f.pe = f.ks = f.ke = UNKPOS; if (f.pend) f.pend = 'n'; f.n = 0; }
    if (first) apply(s, { { EV_DEAD, 0, 0 } });
}
void SpecParse::retire(State& s, int, i64 pos, int var)
{
    if (s.sp.mode == DEAD || s.sp.mode == ANY) return;
    M256 set = s.setOf(var), same;
    SpecS res;
    std::vector<Ev> ev;
    bool have = false, mixed = false;
    for (auto& c : classes()) {
        M256 in = set & c;
        if (in.none()) continue;
        SpecS t = s.sp;
        std::vector<Ev> e;
        stepByte(t, in.first(), pos, e);
        if (!have) { res = t; ev = e; have = true; same = in; }
        else if (sameSp(t, res) && ev == e) same = same | in;
        else mixed = true;
    }
    if (mixed) throw SplitVar { var, same };
    if (res.mode == OVER) throw Unmodelled { "a recursive call ends the container of its caller" };
    if (res.fr.size() > 4) throw Unmodelled { "the program passes over nested containers without a call" };
    bool lost = s.sp.lost || res.fr.size() > 3;
    // an element begins while the last one has not been stored
    for (auto& e : ev) if (e.k == EV_START && s.sp.fr.back().pend && s.sp.fr.size() > 1) lost = true;
    bool was = s.sp.lost;
    s.sp = res;
    apply(s, ev);
    if (lost && s.sp.mode != DEAD) lose(s, !was);
}
void SpecParse::retireOne(State& s, int id)
{
    const Buf* b = s.bufc(id);
    int var = b->win[0];
    i64 pos = b->base;
    retire(s, id, pos, var);
    s.labels.push_back(std::string(1, (char)s.setOf(var).first()));
    s.progress = true;
    Buf* m = s.buf(id);
    m->old.push_back({ pos, var });
    m->win.erase(m->win.begin());
    m->base++;
}
void SpecParse::retireTo(State& s, int id, i64 q)
{
    while (s.bufc(id)->base < q && !s.bufc(id)->win.empty()) retireOne(s, id);
}
// a number is complete as soon as the next byte cannot continue it
void SpecParse::settle(State& s)
{
    if (s.sp.mode != NUM || s.bufs.empty()) return;
    const Buf* b = s.bufs[0].second.get();
    if (b->win.empty()) return;
    int a = s.sp.aux;
    if (!(a == 1 || a == 2 || a == 4 || a == 7)) return;
    M256 cont = M256::range('0', '9');
    if (a <= 2) cont.set('.');
    if (a != 7) { cont.set('e'); cont.set('E'); }
    M256 set = s.setOf(b->win[0]);
    if ((set & cont).none()) {
        SpecS t = s.sp;
        std::vector<Ev> ev;
        SFrame& f = t.fr.back();
        f.pend = '0';
        f.ps = t.x[0];
        f.pe = b->base;
        if (f.n < 2) f.n++;
        t.mode = f.type == 'T' ? END : NEXT;
        t.aux = t.aux2 = 0;
        t.x[0] = UNKPOS;
        ev.push_back({ EV_DONE, (int)t.fr.size() - 1, '0' });
        s.sp = t;
        apply(s, ev);
        return;
    }
    if (!set.subset(cont)) throw SplitVar { b->win[0], cont };
}
bool SpecParse::pin(State& s, int id, i64 pos)
{
    const SpecS& sp = s.sp;
    if (sp.mode != STR || sp.aux != 0) return false;
    const Buf* b = s.bufc(id);
    if (!s.setOf(b->win[0]).test('\\')) return false;
    bool want = false;
    for (auto& o : s.objs) {
        if (o.second->dead) continue;
        for (auto& c : o.second->cells) {
            if (c.v.k != V_STR) continue;
            auto& t = strC(c.v);
            if (t.k == S_TRANS && t.buf == id && t.p == sp.x[0]) {
                if (t.q > pos) return false; // its decoding has been written
                want = true;
            }
            if (t.k == S_CONST && t.text.empty() && sp.x[0] == pos) want = true;
        }
    }
    return want;
}

// ---------------------------------------------------------------- strings
StrC SpecParse::appendRange(State& s, const StrC& c, int buf, i64 p, i64 q)
{
    appends++;
    if (p == q) return c;
    if (s.sp.mode == DEAD || s.sp.lost) return anyS("text");
    bool raw = false;
    StrC r;
    r.k = S_RAW;
    r.buf = buf;
    r.p = p;
    r.q = q;
    if (!isEndPos(q) && !isEndPos(p) && p <= q && s.sp.mode != DEAD) {
        retireTo(s, buf, q);
        const SpecS& sp = s.sp;
        bool in = sp.x[0] != UNKPOS && sp.x[1] != UNKPOS && (sp.mode == STR || sp.x[2] != UNKPOS) && (sp.x[2] == UNKPOS || q <= sp.x[2]);
        bool empty = c.k == S_CONST && c.text.empty();
        i64 F = empty ? sp.x[0] : c.k == S_TRANS && c.buf == buf && c.p == sp.x[0] && c.d == 0 ? c.q : UNKPOS;
        if (in && F != UNKPOS) {
            if (p == F && q <= s.bufc(buf)->base && sp.x[1] <= F) {
                r.k = S_TRANS;
                r.p = sp.x[0];
                return r;
            }
            if (!empty && p == q) return c;
            if (!empty && (c.k == S_TRANS || c.k == S_RAW)) return anyS("a part of the input is appended that does not follow what is there", true);
        }
        raw = empty;
    }
    else raw = c.k == S_CONST && c.text.empty();
    if (raw) return r;
    if (c.k == S_RAW && c.buf == buf && c.q == p) { r.p = c.p; return r; }
    if (c.k == S_ANY) return c;
    if (c.k == S_BYTES) return anyS(c.text, true);
    if (c.k == S_RAW && c.buf == buf) return anyS("a part of the input is appended that does not follow what is there", true);
    return anyS("concatenation");
}
StrC SpecParse::appendStr(State& s, const StrC& c, const StrC& t)
{
    if (t.k == S_CONST && !t.text.empty()) {
        StrC r = c;
        if (!(c.k == S_CONST && s.sp.mode != STR)) {
            for (char ch : t.text) r = appendByte(s, r, mkInt(8, (unsigned char)ch));
            return r;
        }
    }
    if (t.k == S_TRANS && (c.k == S_TRANS || c.k == S_BYTES) && t.d == 0 && !s.bufs.empty() && s.sp.mode == STR) {
        // decoded text is added to decoded text: byte by byte
        StrC r = c;
        for (i64 p = t.p; p < t.q;) {
            std::vector<std::vector<Bit>> out;
            int len = 0;
            if (isEndPos(t.q) || !unit(s, p, out, len)) return anyS("concatenation");
            for (auto& y : out) r = appendByte(s, r, mkBits(y));
            p += len;
        }
        return r;
    }
    return Spec::appendStr(s, c, t);
}
static u64 hexVal(int b) { return b <= '9' ? b - '0' : (b | 32) - 'a' + 10; }
// The bytes that the input unit at F stands for.
bool SpecParse::unit(State& s, i64 F, std::vector<std::vector<Bit>>& out, int& len)
{
    const Buf* b = s.bufc(s.bufs[0].first);
    i64 i = F - b->base;
    auto var = [&](i64 k) -> int { return i + k >= 0 && i + k < (i64)b->win.size() ? b->win[i + k] : -1; };
    auto need = [&](int v, M256 m) { // true: all in m; false: none; else splits
        M256 set = s.setOf(v);
        if (set.subset(m)) return true;
        if ((set & m).none()) return false;
        throw SplitVar { v, m };
    };
    int v0 = var(0);
    if (v0 < 0) return false;
    if (!need(v0, M256::of('\\'))) {
        std::vector<Bit> o;
        for (int k = 0; k < 8; k++) {
            M256 m;
            for (int c = 0; c < 256; c++) if (c >> k & 1) m.set(c);
            o.push_back(norm(s, Bit { 3, v0, internMask(m) }));
        }
        out = { o };
        len = 1;
        return true;
    }
    int v1 = var(1);
    if (v1 < 0) return false;
    if (!need(v1, M256::of('u'))) {
        static const char* E = "\"\\/bfnrt";
        static const char D[] = "\"\\/\b\f\n\r\t";
        if (!need(v1, M256::str(E))) return false;
        std::vector<Bit> o;
        for (int k = 0; k < 8; k++) {
            M256 m;
            for (int c = 0; E[c]; c++) if (D[c] >> k & 1) m.set(E[c]);
            o.push_back(norm(s, Bit { 3, v1, internMask(m) }));
        }
        out = { o };
        len = 2;
        return true;
    }
    M256 hexm = M256::range('0', '9') | M256::range('a', 'f') | M256::range('A', 'F');
    auto four = [&](i64 at, std::vector<Bit>& cp) {
        cp.assign(16, B0());
        for (int k = 0; k < 4; k++) {
            int v = var(at + k);
            if (v < 0 || !need(v, hexm)) return false;
            for (int j = 0; j < 4; j++) {
                M256 m;
                for (int c = 0; c < 256; c++) if (hexm.test(c) && (hexVal(c) >> j & 1)) m.set(c);
                cp[(3 - k) * 4 + j] = norm(s, Bit { 3, v, internMask(m) });
            }
        }
        return true;
    };
    auto digits = [&](const char* t) { M256 m; for (; *t; ++t) for (int c = 0; c < 256; c++) if (hexm.test(c) && (int)hexVal(c) == (int)hexVal(*t)) m.set(c); return m; };
    std::vector<Bit> cp;
    if (!four(2, cp)) return false;
    auto byte = [&](std::vector<Bit> low, unsigned lead, int n) { // n low bits
        std::vector<Bit> o(8, B0());
        for (int k = 0; k < n; k++) o[k] = low[k];
        for (int k = n; k < 8; k++) o[k] = BC(lead >> k & 1);
        return o;
    };
    auto part = [&](const std::vector<Bit>& x, int from, int n) { return std::vector<Bit>(x.begin() + from, x.begin() + from + n); };
    bool d = need(var(2), digits("d"));
    if (d) {
        if (need(var(3), digits("89ab"))) {
            // a pair
            int w = var(6), w2 = var(7);
            if (w < 0 || w2 < 0 || !need(w, M256::of('\\')) || !need(w2, M256::of('u'))) return false;
            std::vector<Bit> lo;
            if (!four(8, lo)) return false;
            if (!need(var(8), digits("d")) || !need(var(9), digits("cdef"))) return false;
            // ((hi - D800) << 10 | (lo - DC00)) + 10000: ten bits each; adding 1 to the upper four
            std::vector<Bit> x(21, B0());
            for (int k = 0; k < 10; k++) x[k] = lo[k];
            for (int k = 0; k < 10; k++) x[10 + k] = cp[k];
            // bits 16..19 come from two digits: decide enough of them to add one
            std::vector<Bit> top(x.begin() + 16, x.begin() + 20);
            Bit carry = B1();
            for (int k = 0; k < 4; k++) {
                Bit t = norm(s, top[k]);
                if (carry.t == 0) { x[16 + k] = t; continue; }
                // carry is one here
                if (t.t == 3 && k < 3) {
                    // is the carry a function of one byte?
                }
                x[16 + k] = I->bitXor(s, t, carry);
                carry = I->bitAnd(s, t, carry);
                if (x[16 + k].t == 2 || carry.t == 2) throw SplitVar { t.var, maskOf(t.mask) };
            }
            x[20] = carry;
            out = { byte(part(x, 18, 3), 0xF0, 3), byte(part(x, 12, 6), 0x80, 6), byte(part(x, 6, 6), 0x80, 6), byte(part(x, 0, 6), 0x80, 6) };
            len = 12;
            return true;
        }
        if (need(var(3), digits("cdef"))) return false; // a low surrogate alone
    }
    bool z0 = need(var(2), digits("0"));
    if (z0 && need(var(3), digits("0"))) {
        if (need(var(4), digits("01234567"))) { out = { byte(cp, 0, 7) }; len = 6; return true; }
    }
    if (z0 && need(var(3), digits("01234567"))) {
        out = { byte(part(cp, 6, 5), 0xC0, 5), byte(part(cp, 0, 6), 0x80, 6) };
        len = 6;
        return true;
    }
    out = { byte(part(cp, 12, 4), 0xE0, 4), byte(part(cp, 6, 6), 0x80, 6), byte(part(cp, 0, 6), 0x80, 6) };
    len = 6;
    return true;
}
StrC SpecParse::appendByte(State& s, const StrC& c, const Val& byte)
{
    appends++;
    const SpecS& sp = s.sp;
    if (sp.mode == DEAD || sp.lost) return anyS("text"); // nobody will look at it
    bool empty = c.k == S_CONST && c.text.empty();
    if (sp.mode == STR && !s.bufs.empty() && (empty || (c.k == S_TRANS && c.p == sp.x[0]))) {
        StrC r = c;
        if (empty) { r = StrC(); r.k = S_TRANS; r.buf = s.bufs[0].first; r.p = r.q = sp.x[0]; r.d = 0; }
        std::vector<std::vector<Bit>> out;
        int len = 0;
        auto wrong = [&](const char* why) { return empty ? addByte(s, c, byte, why) : anyS(why, true); };
        if (!unit(s, r.q, out, len)) return wrong("a byte is appended that the input does not stand for");
        if (r.d >= (i64)out.size()) return anyS("too many bytes are appended for a unit of the input", true);
        auto got = bitsOf(byte);
        if (got.size() != 8) return anyS("unknown byte");
        auto& want = out[r.d];
        for (int k = 0; k < 8; k++) {
            Bit g = norm(s, got[k]), w = norm(s, want[k]);
            if (g == w) continue;
            // sums and the like may need a finer case split
            if (g.t == 2) return anyS("unknown byte");
            // the same function?
            Bit x = I->bitXor(s, g, w);
            if (x.t == 0) continue;
            if (x.t == 2 && g.t == 3) throw SplitVar { g.var, maskOf(g.mask) };
            return wrong("a byte is appended that differs from what the input stands for");
        }
        r.d++;
        if (r.d == (i64)out.size()) { r.q += len; r.d = 0; }
        return r;
    }
    if (c.k == S_CONST && byte.isInt()) { StrC r = c; r.text += (char)byte.a; return r; }
    if (c.k == S_ANY) return c;
    if (c.k == S_BYTES || empty) return addByte(s, c, byte, "computed bytes");
    return anyS("concatenation");
}

// ---------------------------------------------------------------- values
bool SpecParse::denotes(State& s, const Val& p, int kind, i64 ps, i64 pe, std::string& why)
{
    auto& L = I->lay;
    if (!L.ok) throw Unmodelled { "layout of json::value" };
    Obj& o = I->objRef(s, p, false, "use");
    Val tag = cellGet(o, (int)p.b + L.tagOff, L.tagSize);
    Val idx = cellGet(o, (int)p.b + L.idxOff, 1);
    if (tag.k != V_INT) { why = "the type of the value is not determined"; return false; }
    static const std::map<int, std::string> K = { { 'n', "null" }, { 't', "boolean" }, { 'f', "boolean" }, { '0', "number" }, { 's', "string" }, { 'a', "array" }, { 'A', "array" }, { 'o', "object" }, { 'O', "object" } };
    auto it = K.find(kind);
    if (it == K.end()) { why = "there is no complete value in the text"; return false; }
    auto kk = I->kinds.find(it->second);
    if (kk == I->kinds.end()) throw Unmodelled { "kind_" + it->second };
    if (tag.a != kk->second) {
        std::string got = "?";
        for (auto& q : I->kinds) if (q.second == tag.a) got = q.first;
        why = "the text is of type " + it->second + " but the value is of type " + got;
        return false;
    }
    if (kind == 'n') return true;
    if (idx.k != V_INT) { why = "the value's variant is not determined"; return false; }
    i64 want = kind == 'a' || kind == 'A' ? I->altArr : kind == 'o' || kind == 'O' ? I->altObj : I->altStr;
    if (idx.a != want) { why = "the value's type and data do not match"; return false; }
    if (want == I->altStr) {
        Val v = cellGet(o, (int)p.b + L.varOff, 32);
        if (v.k != V_STR) { why = "the value holds no text"; return false; }
        const StrC& c = strC(v);
        if (kind == 't' || kind == 'f') {
            if (c.k == S_CONST && c.text == (kind == 't' ? "true" : "false")) return true;
            why = "the boolean's text is " + (c.k == S_CONST ? "\"" + c.text + "\"" : std::string("not determined"));
            return false;
        }
        if (c.k == S_DEN) return true;
        if (kind == '0' && c.k == S_RAW && ps != UNKPOS && c.p == ps && c.q == pe) return true;
        if (kind == 's' && c.k == S_TRANS && ps != UNKPOS && c.p == ps && c.q == pe && c.d == 0) return true;
        if (kind == 's' && c.k == S_CONST && c.text.empty() && ps != UNKPOS && ps == pe) return true;
        why = kind == '0' ? "the number's text is not exactly the text of the input" : "the string is not the decoding of the literal";
        if (c.k == S_ANY && !c.d) throw Unmodelled { "the text of a value is not known: " + (c.text.empty() ? "unknown" : c.text) };
        if ((c.k == S_ANY || c.k == S_BYTES) && !c.text.empty()) why += " (" + c.text + ")";
        return false;
    }
    Val ptr = cellGet(o, (int)p.b + L.varOff, 8);
    if (!ptr.isPtr(P_OBJ)) { why = "the value holds no container"; return false; }
    const Obj* c = s.objc((int)ptr.a);
    if (!c || c->dead) { why = "the value's container is gone"; return false; }
    for (auto& x : c->cells) {
        if (x.v.k != V_VEC && x.v.k != V_MAP) continue;
        const ConC& q = conC(x.v);
        if (q.part) { why = "not all elements were transferred"; return false; }
        if (kind == 'a' || kind == 'o') {
            if (q.k == C_EMPTY) return true;
            why = "the container should be empty";
            return false;
        }
        if (q.k == C_DEN) return true;
        why = q.k == C_EMPTY ? "the container is empty but the text has elements" : "the container does not hold exactly the elements of the text";
        if (q.k == C_ANY && !q.text.empty()) why += " (" + q.text + ")";
        return false;
    }
    why = "the value holds no container";
    return false;
}
ConC SpecParse::vecPush(State& s, const ConC& c, const Val& e)
{
    pushes++;
    ConC r;
    r.k = C_ANY;
    r.nonempty = 1;
    if (s.sp.mode == DEAD) { r.text = "elements"; return r; }
    settle(s);
    if (s.sp.lost) { r.text = "elements"; return r; }
    SFrame& f = s.sp.fr.back();
    int d = (int)s.sp.fr.size() - 1;
    if (f.type != 'A') { r.text = "an element is appended outside an array"; return r; }
    if (!f.pend) { r.text = "an element is appended that is not in the text"; return r; }
    if (c.part) { r.text = "an element is stored while others are transferred"; return r; }
    if (!((c.k == C_EMPTY && f.n == 1) || (c.k == C_BUILT && c.d == d && c.behind))) {
        r.text = c.k == C_ANY ? c.text : "an element is missing or doubled";
        return r;
    }
    std::string why;
    if (!denotes(s, e, f.pend, f.ps, f.pe, why)) {
        r.text = why;
        I->report(s, "content", "an array element is not what the text says: " + why);
        return r;
    }
    f.pend = 0;
    f.ps = f.pe = UNKPOS;
    for (auto& x : s.sp.x) if (s.sp.mode != STR && s.sp.mode != NUM) x = UNKPOS;
    forget(s, [](StrC& q) { if (q.k == S_DEN) { q = anyS("text of a stored value", true); return true; } return false; },
        [](ConC& q) { if (q.k == C_DEN) { anyC(q, "elements of a stored value"); return true; } return false; });
    r = ConC();
    r.k = C_BUILT;
    r.d = d;
    return r;
}
bool SpecParse::mapEmplace(State& s, ConC& c, const StrC& key, const Val& e)
{
    emplaces++;
    ConC r;
    r.k = C_ANY;
    r.nonempty = 1;
    ConC c0 = c;
    if (s.sp.mode == DEAD) { bool in = c.k == C_EMPTY || !I->choose(s, 2, "duplicate key"); r.text = "members"; c = r; return in; }
    settle(s);
    bool in = c.k == C_EMPTY || !I->choose(s, 2, "duplicate key");
    SFrame& f = s.sp.fr.back();
    int d = (int)s.sp.fr.size() - 1;
    c = r;
    if (s.sp.lost) { if (!in) throw Unmodelled { "a name is found to be there already, in a text whose members were not stored one by one" }; c.text = "members"; return in; }
    if (!in) {
        // the text holds the same name twice
        std::vector<Ev> ev;
        kill(s.sp, ev);
        apply(s, ev);
        if (c0.k == C_BUILT) c.text = "members"; else c = c0;
        s.labels.push_back("<same name as before>");
        return false;
    }
    if (f.type != 'O') { c.text = "a member is stored outside an object"; return in; }
    if (!f.pend) { c.text = "a member is stored that is not in the text"; return in; }
    if (!((c0.k == C_EMPTY && f.n == 1) || (c0.k == C_BUILT && c0.d == d && c0.behind))) {
        c.text = c0.k == C_ANY ? c0.text : "a member is missing or doubled";
        return in;
    }
    std::string why;
    bool keyOk = (key.k == S_TRANS && key.d == 0 && f.ks != UNKPOS && key.p == f.ks && key.q == f.ke) || (key.k == S_CONST && key.text.empty() && f.ks != UNKPOS && f.ks == f.ke);
    if (!keyOk && key.k == S_ANY && !key.d) throw Unmodelled { "the text of a name is not known: " + (key.text.empty() ? "unknown" : key.text) };
    if (!keyOk) {
        why = "the name is not the decoding of the literal" + ((key.k == S_ANY || key.k == S_BYTES) && !key.text.empty() ? " (" + key.text + ")" : std::string());
    }
    if (!keyOk || !denotes(s, e, f.pend, f.ps, f.pe, why)) {
        c.text = why;
        I->report(s, "content", "an object member is not what the text says: " + why);
        return in;
    }
    f.pend = 0;
    f.ps = f.pe = f.ks = f.ke = UNKPOS;
    for (auto& x : s.sp.x) if (s.sp.mode != STR && s.sp.mode != NUM) x = UNKPOS;
    forget(s, [](StrC& q) { if (q.k == S_DEN) { q = anyS("text of a stored value", true); return true; } return false; },
        [](ConC& q) { if (q.k == C_DEN) { anyC(q, "elements of a stored value"); return true; } return false; });
    c = ConC();
    c.k = C_BUILT;
    c.d = d;
    return in;
}

// ---------------------------------------------------------------- recursion
// keeps the next byte and how many others there are, but not which
static void forgetBytes(Buf& b, i64 hot)
{
    i64 n = (i64)b.win.size(), k = std::min<i64>(n, 1);
    b.rmin = std::min<i64>(b.rmin + n - k, std::max<i64>(hot - b.base - k, 0) + 2);
    if (b.rmax >= 0) b.rmax += n - k;
    if (b.rmax > 3) b.rmax = -1;
    if (b.rmax >= 0 && b.rmax < b.rmin) b.rmax = b.rmin;
    b.win.resize(k);
    b.old.clear();
}
void SpecParse::enterCut(State& e, const State& c)
{
    e.sp = c.sp;
    if (e.sp.mode == DEAD) {
        e.sp.aux = 0;
        e.sp.fr.assign(1, SFrame());
        for (auto& b : e.bufs) { b.second = std::make_shared<Buf>(*b.second); forgetBytes(*b.second, I->hotPos(e, b.first)); }
        return;
    }
    for (auto& b : e.bufs)
        if (b.second->rmin) { b.second = std::make_shared<Buf>(*b.second); b.second->rmin = 0; }
    SFrame f = c.sp.fr.back();
    f.ps = f.pe = f.ks = f.ke = UNKPOS;
    // whether the enclosing container may end here makes no difference if it visibly does not
    if ((e.sp.mode == VALEND || e.sp.mode == KEYEND) && !e.sp.cm && !e.bufs.empty() && !e.bufs[0].second->win.empty()) {
        M256 ws = M256::str(" \t\r\n/]}");
        if ((c.setOf(e.bufs[0].second->win[0]) & ws).none()) e.sp.mode = e.sp.mode == VALEND ? VAL : KEY;
    }
    if (e.sp.mode == VAL || e.sp.mode == KEY) { f.n = 0; f.type = f.type == 'T' ? 'T' : 'V'; }
    e.sp.fr.assign(1, f);
    for (auto& x : e.sp.x) x = UNKPOS;
}
void SpecParse::checkCut(State& c, int ctx)
{
    cuts++;
    if (c.sp.mode == DEAD) return;
    bool open = c.sp.fr.size() > 1;
    if (!open) {
        const auto& cb = *cast<CallBase>(c.topc().pc);
        I->report(c, "recursion", "recursive call of " + I->info(cb.getCalledFunction())->dem + " without an array or object opened since the last one");
    }
}
// Nothing that may follow makes the text valid.  At the return of a call (split) all bytes that the program has
// looked at count; before, only the first, because the program may have to look at the others again.
void SpecParse::hopeless(State& s, bool split)
{
    if (s.sp.mode == DEAD || s.sp.mode == ANY) return;
    const Buf* b = s.bufs[0].second.get();
    SpecS cur = s.sp;
    bool dead = false;
    size_t i = 0;
    bool valueOpen = s.sp.fr.size() > 1 || s.sp.mode == STR || s.sp.mode == LIT || s.sp.mode == NUM || s.sp.mode == COLON || !s.sp.fr.back().pend;
    if (s.sp.fr[0].type != 'T' && !valueOpen) return; // for the caller to see
    for (; i < b->win.size() && !dead; i++) {
        if (!split && i) return;
        if (split && i && !valueOpen) return;
        M256 set = s.setOf(b->win[i]), bad;
        SpecS next;
        bool have = false, differ = false, some = false;
        for (auto& c : classes()) {
            M256 in = set & c;
            if (in.none()) continue;
            SpecS t = cur;
            std::vector<Ev> ev;
            stepByte(t, in.first(), b->base + (i64)i, ev);
            if (t.mode == DEAD) { some = true; bad = bad | in; continue; }
            if (!have) { next = t; have = true; }
            else if (!sameSp(t, next)) differ = true;
        }
        if (!have) { dead = some; break; }
        bool open = cur.fr.size() > 1 || cur.mode == STR || cur.mode == LIT || cur.mode == NUM;
        // only where the value is broken, not where it is complete
        if (split && some && open) throw SplitVar { b->win[i], bad };
        if (some || differ || next.mode == ANY || next.mode == OVER) return;
        cur = next;
    }
    if (!dead && b->rmax == 0) {
        dead = cur.mode != END;
        if (cur.mode == END && cur.cm && cur.cm != 2) dead = true;
    }
    if (!dead) return;
    std::vector<Ev> ev;
    kill(s.sp, ev);
    apply(s, ev);
}
void SpecParse::exitCut(State& s, int)
{
    if (s.bufs.empty()) return;
    settle(s);
    const Buf* b = s.bufs[0].second.get();
    hopeless(s, true);
    if (s.sp.mode != DEAD && s.sp.fr.size() > 3) throw Unmodelled { "recursive calls return in the middle of a value" };
    if (s.sp.mode == DEAD) forgetBytes(*s.buf(s.bufs[0].first), I->hotPos(s, s.bufs[0].first));
    if (s.sp.mode != DEAD) {
        SFrame f = s.sp.fr.back();
        if (s.sp.fr.size() == 1) {
            forget(s, [&](StrC& c) {
                if ((f.pend == '0' && c.k == S_RAW && f.ps != UNKPOS && c.p == f.ps && c.q == f.pe) ||
                    (f.pend == 's' && f.ps != UNKPOS && ((c.k == S_TRANS && c.p == f.ps && c.q == f.pe && c.d == 0) || (c.k == S_CONST && c.text.empty() && f.ps == f.pe)))) {
                    c = StrC();
                    c.k = S_DEN;
                    return true;
                }
                return false;
            }, [](ConC&) { return false; });
        }
        for (auto& g : s.sp.fr) g.ps = g.pe = g.ks = g.ke = UNKPOS;
        for (auto& x : s.sp.x) x = UNKPOS;
    }
    forget(s, [](StrC& c) { if (c.k == S_RAW || c.k == S_TRANS) { c = anyS("text from before the call returned"); return true; } return false; },
        [](ConC& c) { if (c.k == C_BUILT) { anyC(c, "unfinished container"); return true; } return false; });
}
void SpecParse::resumeCut(State& c, const State& x, bool)
{
    SpecS sp = x.sp;
    if (c.sp.mode == DEAD || sp.mode == DEAD) {
        bool opened = c.sp.mode == DEAD ? c.sp.aux : c.sp.fr.size() > 1;
        std::vector<Ev> ev;
        if (c.sp.mode != DEAD) { kill(c.sp, ev); apply(c, ev); }
        c.sp.aux = opened;
        return;
    }
    SFrame f = c.sp.fr.back();
    std::vector<SFrame> fr(c.sp.fr.begin(), c.sp.fr.end() - 1);
    int d = (int)fr.size();
    bool finished = x.sp.fr[0].pend && !f.pend;
    if (x.sp.fr[0].type == 'V') { if (finished && f.n < 2) f.n++; }
    else f.n = x.sp.fr[0].n;
    f.pend = x.sp.fr[0].pend;
    f.ps = f.pe = UNKPOS;
    fr.push_back(f);
    fr.insert(fr.end(), x.sp.fr.begin() + 1, x.sp.fr.end());
    sp.fr = fr;
    bool lost = c.sp.lost || sp.lost, was = c.sp.lost;
    c.sp = sp;
    if (lost) { lose(c, !was); return; }
    if (finished) {
        // the containers of the caller now lag behind by one
        forget(c, [](StrC&) { return false; }, [&](ConC& q) {
            if (q.k != C_BUILT || q.d != d) return false;
            if (q.behind) anyC(q, "an element is missing");
            else q.behind = true;
            return true;
        });
    }
}

// ---------------------------------------------------------------- the verdict
int SpecParse::minComplete(const SpecS& sp) const
{
    if (sp.mode == ANY) return 0;
    if (sp.mode == DEAD) return 1 << 20;
    int n = sp.cm == 1 ? 3 : sp.cm == 2 ? (sp.mode == END ? 0 : 1) : sp.cm == 3 ? 2 : sp.cm == 4 ? 1 : 0;
    if (sp.mode == END) return n;
    int close = (int)sp.fr.size() - 1;
    bool top = sp.fr.back().type == 'T';
    switch (sp.mode) {
    case VAL: n += top ? 2 : 1; break;
    case VALEND: case NEXT: case KEYEND: break;
    case KEY: n += 4; break;
    case COLON: n += 2; break;
    case STR: n += (sp.v[0] ? 3 : 1) + (sp.aux == 0 ? 0 : sp.aux == 1 ? 1 : 1) + (sp.aux2 ? 6 : 0); break;
    case NUM: n += (sp.aux == 1 || sp.aux == 2 || sp.aux == 4 || sp.aux == 7) ? 0 : 1; break;
    case LIT: n += (int)strlen(LITS[sp.aux]) - sp.aux2; break;
    }
    return n + close;
}
void SpecParse::verdict(State& s, bool accept, const Val& p)
{
    int id = s.bufs[0].first;
    while (!s.bufc(id)->win.empty()) retireOne(s, id);
    verdicts++;
    const SpecS& sp = s.sp;
    const Buf* b = s.bufc(id);
    if (accept) {
        accepts++;
        if (sp.mode == DEAD) throw Bug { "accept", "accepts a text that is not in the language" };
        if (sp.mode != ANY) {
            bool okNow = sp.mode == END && (sp.cm == 0 || sp.cm == 2);
            if (b->rmax != 0) throw Bug { "accept", "accepts a text without having checked what follows" };
            if (!okNow) throw Bug { "accept", "accepts an incomplete text" };
        }
        std::string why;
        if (sp.lost) throw Unmodelled { "a text is accepted whose elements were not stored one by one" };
        if (!denotes(s, p, sp.fr[0].pend, UNKPOS, UNKPOS, why)) throw Bug { "content", "the parsed value is not what the text says: " + why };
        return;
    }
    rejects++;
    if (sp.mode == DEAD) return;
    bool bad;
    if (sp.mode == ANY) bad = true;
    else if (b->rmax == 0) bad = sp.mode == END && (sp.cm == 0 || sp.cm == 2);
    else bad = b->rmax < 0 || minComplete(sp) <= b->rmax;
    if (bad) throw Bug { "accept", b->rmax == 0 ? "rejects a text of the language" : "rejects every text that starts like this, including valid ones" };
}
void SpecParse::finish(State& s, const Val&) { (void)s; }
void SpecParse::finishThrow(State& s, const std::string& type)
{
    throw Bug { "throw", "parsing ends with an exception (" + type + ")" };
}
bool SpecParse::call(State& s, const std::string& name, const CallBase&, std::vector<Val>& a, Val& ret)
{
    if (name == "verdict_accept") { verdict(s, true, a[0]); return true; }
    if (name == "verdict_reject") { verdict(s, false, Val()); return true; }
    return false;
}

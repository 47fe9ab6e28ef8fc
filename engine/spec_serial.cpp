// What has been written so far is described by
//   S_CONST  literal text
//   S_CAT    literal text, white space of any length, texts of entities (raw or escaped) and whole serialised values (toks)
//   S_OUT    the place in the JSON grammar where it has arrived:
//            p    phase, see below;  q 1: something unknown was there before
//            d    1 within an array, 2 within an object, con: an object that holds the elements or members written so far
//            ent  the entity whose text is written, or (done) the value (key 1: an object that holds it);  toks: the key;  back: the phase a string goes back to
//            text the literal that is being written, or which text of ent
//   S_ANY    not known (d 1: known to be wrong, text says why)
// Recursive functions are not entered: where one is called on a part of the value, it is assumed to write the text of that part, and that
// it does so for every value and whatever was written before is established by an analysis of its own (Job).
#include "spec_serial.h"
using namespace llvm;
enum { START, A_OPEN, A_ELEM, A_COMMA, O_OPEN, O_MEMBER, O_COMMA, O_KEY, O_COLON, STR_OPEN, STR_TEXT, DONE_ };
static const char* KINDS[] = { "null", "boolean", "string", "number", "array", "object" };
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static StrC anyText(const char* why) { StrC r; r.text = why; return r; }
static StrC opq(int e, const std::string& which) { StrC r; r.k = S_OPQ; r.ent = e; r.text = which; return r; }
static StrC lit(std::string t) { StrC r; r.k = S_CONST; r.text = std::move(t); return r; }

StrC SpecSerial::bad(State& s, const std::string& why)
{
    StrC r;
    r.d = 1;
    r.text = why + (s.st.empty() ? "" : " (" + I->locOf(s) + ")");
    return r;
}
StrC SpecSerial::start() { StrC r; r.k = S_OUT; r.p = START; return r; }
// ---------------------------------------------------------------- the grammar
static bool wantsValue(const StrC& o) { return o.p == START || o.p == A_OPEN || o.p == A_COMMA || o.p == O_COLON; }
// a value has been written: entity ent, or a scalar of a kind with a text
StrC SpecSerial::complete(State& s, StrC o, int ent, int kind, const StrC& text)
{
    o.text.clear();
    if (!wantsValue(o)) return bad(s, o.p == DONE_ ? "more text after the value" : o.p == A_ELEM || o.p == O_MEMBER ? "no comma between two values" : "a value where none belongs");
    // an object that holds it
    int tmp = 0;
    Val slot;
    if (ent) {
        for (auto& x : s.objs)
            if (!x.second->dead && (x.first == ent || x.second->entOf == ent) && x.second->kind == 5 && x.second->est == 1) slot = mkPtr(P_OBJ, x.first, x.second->isMap ? 32 : 0);
        if (slot.k == V_PTR && !s.objc((int)slot.a)->tag) { } // as it is
    }
    if (slot.k != V_PTR) {
        tmp = s.newObj(I->lay.size, 1);
        if (ent) {
            if (!s.objc(ent)->tag) I->isEntity(s, mkPtr(P_OBJ, tmp, 0), ent);
            if (!s.objc(ent)->tag) return anyText("a value of unknown type");
            I->entityValue(s, tmp, 0, (int)s.objc(ent)->tag - 1, ent);
        }
        else {
            Obj* t = s.obj(tmp);
            cellPut(*t, I->lay.tagOff, I->lay.tagSize, mkInt(I->lay.tagSize * 8, (u64)I->kinds[KINDS[kind]]));
            cellPut(*t, I->lay.varOff, 32, mkStr(kind ? text : lit("")));
            cellPut(*t, I->lay.idxOff, 1, mkInt(8, (u64)I->altStr));
        }
        slot = mkPtr(P_OBJ, tmp, 0);
    }
    if (o.p == START) {
        o.p = DONE_;
        o.ent = ent ? ent : tmp;
        o.key = ent ? 0 : 1; // 1: ent is the object that holds it
        return o;
    }
    VK k = o.d == 1 ? V_VEC : V_MAP;
    int size = k == V_VEC ? 24 : 48;
    int n = s.newObj(size, 1);
    cellPut(*s.obj(n), 0, size, cellGet(*s.objc(o.con), 0, size));
    Val self = mkPtr(P_OBJ, n, 0);
    ConC c = I->conAt(s, self, k);
    StrC key;
    if (k == V_MAP && o.toks.size() == 1) key = o.toks[0].k == 'c' ? lit(o.toks[0].text) : opq(o.toks[0].id, o.toks[0].text);
    if (!I->elemPush(s, c, slot, k == V_MAP ? &key : nullptr)) {
        int el = s.newObj(k == V_VEC ? I->lay.size : 32 + I->lay.size, 7);
        if (k == V_MAP) cellPut(*s.obj(el), 0, 32, mkStr(key));
        I->copyValue(s, slot, el, k == V_MAP ? 32 : 0);
        I->appendElem(s, self, k, c, el);
    }
    I->putConQuiet(s, self, k, c);
    o.con = n;
    o.p = k == V_VEC ? A_ELEM : O_MEMBER;
    o.toks.clear();
    o.ent = 0;
    return o;
}
// the literal that has been written, if any, is complete
StrC SpecSerial::literal(State& s, StrC o)
{
    if (o.k != S_OUT || o.p >= STR_OPEN || o.text.empty()) return o;
    std::string t = o.text;
    o.text.clear();
    int kind = t == "null" ? 0 : t == "true" || t == "false" ? 1 : t.find_first_not_of("0123456789+-.eE") == std::string::npos ? 3 : -1;
    if (kind < 0) return bad(s, "\"" + t + "\" is no value");
    return complete(s, o, 0, kind, lit(t));
}
StrC SpecSerial::feedChar(State& s, StrC o, char c)
{
    if (o.k != S_OUT) return o;
    auto opened = [&](int mode) {
        if (!wantsValue(o) || o.d) return o.d && wantsValue(o) ? anyText("a container written within another") : bad(s, "a bracket where no value belongs");
        o.d = mode;
        o.p = mode == 1 ? A_OPEN : O_OPEN;
        int size = mode == 1 ? 24 : 48, n = s.newObj(size, 1);
        cellPut(*s.obj(n), 0, size, mkCon(mode == 1 ? V_VEC : V_MAP, ConC()));
        o.con = n;
        return o;
    };
    if (o.p == STR_OPEN) {
        if (c != '"') { o.text += c; return c == '\\' || (unsigned char)c < 0x20 || o.text.size() > 40 ? anyText("text within quotes") : o; }
        std::string t = o.text;
        o.text.clear();
        o.p = o.back;
        if (wantsValue(o)) return complete(s, o, 0, 2, lit(t));
        Tok k;
        k.text = t;
        o.toks = { k };
        o.p = O_KEY;
        return o;
    }
    if (o.p == STR_TEXT) {
        if (c != '"') return bad(s, std::string("'") + c + "' after the text of a string");
        int e = o.ent;
        std::string which = o.text;
        o.ent = 0;
        o.text.clear();
        o.p = o.back;
        if (wantsValue(o)) return complete(s, o, 0, 2, opq(e, which));
        Tok k;
        k.k = 'r';
        k.id = e;
        k.text = which;
        o.toks = { k };
        o.p = O_KEY;
        return o;
    }
    if (isalnum((unsigned char)c) || c == '-' || c == '+' || c == '.') {
        if (!wantsValue(o)) return bad(s, std::string("'") + c + "' where no value belongs");
        o.text += c;
        return o.text.size() > 40 ? anyText("a long literal") : o;
    }
    o = literal(s, o);
    if (o.k != S_OUT || ws(c)) return o;
    switch (c) {
    case '[': return opened(1);
    case '{': return opened(2);
    case ',':
        if (o.p == A_ELEM) o.p = A_COMMA;
        else if (o.p == O_MEMBER) o.p = O_COMMA;
        else return bad(s, o.p == A_COMMA || o.p == O_COMMA ? "two commas" : o.p == A_OPEN || o.p == O_OPEN ? "a comma before the first element" : "a comma where none belongs");
        return o;
    case ':':
        if (o.p != O_KEY) return bad(s, "a colon where none belongs");
        o.p = O_COLON;
        return o;
    case '"':
        if (!wantsValue(o) && o.p != O_OPEN && o.p != O_COMMA) return bad(s, o.p == A_ELEM || o.p == O_MEMBER ? "no comma between two values" : "a quote where none belongs");
        o.back = (int)o.p;
        o.p = STR_OPEN;
        return o;
    case ']':
    case '}': {
        bool arr = c == ']';
        if (o.d != (arr ? 1 : 2)) return bad(s, "the wrong bracket");
        if (o.p == (arr ? A_COMMA : O_COMMA)) return bad(s, "a comma after the last element");
        if (o.p == O_KEY || o.p == O_COLON) return bad(s, "a key without a value");
        if (o.p != (arr ? A_OPEN : O_OPEN) && o.p != (arr ? A_ELEM : O_MEMBER)) return bad(s, "a bracket where none belongs");
        o.p = DONE_;
        return o;
    }
    }
    return bad(s, std::string("'") + c + "' between the tokens");
}
StrC SpecSerial::feed(State& s, StrC o, const Tok& t)
{
    if (o.k != S_OUT) return o;
    if (t.k == 'c') { for (char c : t.text) o = feedChar(s, o, c); return o; }
    if (t.k == 'w') {
        if (o.p == STR_OPEN || o.p == STR_TEXT) return bad(s, "white space within a string");
        return literal(s, o);
    }
    if (t.k == 'v') { o = literal(s, o); return o.k == S_OUT ? o.p == STR_OPEN || o.p == STR_TEXT ? bad(s, "a value within a string") : complete(s, o, t.id, 0, StrC()) : o; }
    if (t.k == 'e') {
        if (o.p != STR_OPEN || !o.text.empty()) return bad(s, o.p == STR_OPEN ? "other text before the text of a string" : "the text of a string without quotes");
        o.p = STR_TEXT;
        o.ent = t.id;
        o.text = t.text;
        return o;
    }
    if (t.k == 'r') {
        int k = t.text == "text" && s.objc(t.id) ? (int)s.objc(t.id)->tag - 1 : 2;
        if (o.p == STR_OPEN || o.p == STR_TEXT) return bad(s, k == 2 ? "the text of a string without escapes" : "a scalar in quotes");
        if (k == 0) return o;
        if (k != 1 && k != 3) return bad(s, "the text of a string without quotes");
        o = literal(s, o);
        return o.k == S_OUT ? complete(s, o, 0, k, opq(t.id, t.text)) : o;
    }
    return anyText("unknown text");
}
// ---------------------------------------------------------------- texts
std::vector<Tok> SpecSerial::toksOf(State& s, const StrC& c, bool& known)
{
    Tok t;
    if (c.k == S_CONST) { if (c.text.empty()) return {}; t.text = c.text; return { t }; }
    if (c.k == S_CAT) return c.toks;
    if (c.k == S_OPQ && (c.text == "text" || c.text == "name" || c.text == "cut")) { t.k = 'r'; t.id = c.ent; t.text = c.text; return { t }; }
    if (c.k == S_OUT && !c.q && c.p == DONE_) {
        t.k = 'v';
        if (!c.d && !c.key) { t.id = c.ent; return { t }; }
        std::vector<Tok> r;
        if (!c.d) { valueToks(s, mkPtr(P_OBJ, c.ent, 0), 'V', r, known); return r; }
        valueToks(s, mkPtr(P_OBJ, c.con, 0), c.d == 1 ? 'A' : 'O', r, known);
        return r;
    }
    known = false;
    return {};
}
// what serialising the value at p gives
void SpecSerial::valueToks(State& s, const Val& p, char kind, std::vector<Tok>& out, bool& known)
{
    Tok t;
    if (kind != 'V') {
        VK k = kind == 'A' ? V_VEC : V_MAP;
        I->settle(s, p, k);
        ConC c = I->conAt(s, p, k);
        if (c.k == C_EMPTY || (c.k == C_SEQ && c.segs.empty() && !c.part)) { t.text = kind == 'A' ? "[]" : "{}"; out.push_back(t); return; }
        if (c.k != C_SEQ || c.part || c.segs.size() != 1 || c.segs[0].how == "elem" || I->changed(s, (int)p.a, (int)p.b)) { known = false; return; }
        t.k = 'v';
        t.id = (int)c.segs[0].id;
        out.push_back(t);
        return;
    }
    const Obj* o = s.objc((int)p.a);
    if (o && o->kind == 5 && p.b == (o->isMap ? 32 : 0) && !o->dead) {
        if (I->elemIsEnd(s, (int)p.a)) throw Bug { "bounds", "use of an element past the end of its container" };
        int id = I->identity(s, (int)p.a);
        if (I->isEntity(s, p, id) == 1) { t.k = 'v'; t.id = id; out.push_back(t); return; }
    }
    Obj& v = I->objRef(s, p, false, "use");
    Val tag = cellGet(v, (int)p.b + I->lay.tagOff, I->lay.tagSize), idx = cellGet(v, (int)p.b + I->lay.idxOff, 1);
    int k = -1;
    for (int i = 0; i < 6; i++) if (tag.k == V_INT && I->kinds[KINDS[i]] == tag.a) k = i;
    if (k < 0 || idx.k != V_INT) { known = false; return; }
    if (k == 0) { t.text = "null"; out.push_back(t); return; }
    if (k < 4) {
        Val x = cellGet(v, (int)p.b + I->lay.varOff, 32);
        if (x.k != V_STR) { known = false; return; }
        auto r = toksOf(s, strC(x), known);
        if (k == 2) {
            t.text = "\"";
            out.push_back(t);
            for (auto& y : r) { if (y.k == 'r') y.k = 'e'; else if (y.k != 'c' || y.text.find_first_of("\"\\\b\f\n\r\t") != std::string::npos) known = false; out.push_back(y); }
            out.push_back(t);
        }
        else out.insert(out.end(), r.begin(), r.end());
        return;
    }
    Val q = cellGet(v, (int)p.b + I->lay.varOff, 8);
    if (!q.isPtr(P_OBJ)) { known = false; return; }
    valueToks(s, mkPtr(P_OBJ, q.a, 0), k == 4 ? 'A' : 'O', out, known);
}
StrC SpecSerial::appendStr(State& s, const StrC& c, const StrC& t)
{
    if (t.k == S_CONST && t.text.empty()) return c;
    if (c.k == S_CONST && c.text.empty()) return t;
    if (c.k == S_ANY && c.d) return c;
    if (t.k == S_ANY && t.d) return t;
    bool special = c.k == S_OUT || c.k == S_CAT || t.k == S_OUT || t.k == S_CAT || ((c.k == S_OPQ || t.k == S_OPQ) && c.k != S_ANY && t.k != S_ANY);
    if (!special) return SpecHarness::appendStr(s, c, t);
    bool known = true;
    auto y = toksOf(s, t, known);
    if (!known) return anyText("text of which nothing is known");
    if (c.k == S_OUT) {
        StrC o = c;
        for (auto& x : y) o = feed(s, o, x);
        return o;
    }
    auto x = toksOf(s, c, known);
    if (!known) return anyText("text of which nothing is known");
    x.insert(x.end(), y.begin(), y.end());
    std::vector<Tok> r;
    for (auto& z : x) {
        if (!r.empty() && r.back().k == 'c' && z.k == 'c') r.back().text += z.text;
        else if (!r.empty() && r.back().k == 'w' && z.k == 'w') continue;
        else r.push_back(z);
    }
    bool json = r[0].k == 'c' && (r[0].text[0] == '[' || r[0].text[0] == '{');
    if (json || r.size() > 8) {
        if (!json) return anyText("text of many pieces");
        StrC o = start();
        for (auto& z : r) o = feed(s, o, z);
        return o;
    }
    StrC o;
    o.k = S_CAT;
    o.toks = r;
    return o;
}
StrC SpecSerial::appendByte(State& s, const StrC& c, const Val& b)
{
    if (c.k == S_ANY && c.d) return c;
    if (c.k == S_OUT || c.k == S_CAT || c.k == S_OPQ) {
        if (!b.isInt()) return anyText("an unknown byte");
        return appendStr(s, c, lit(std::string(1, (char)b.a)));
    }
    return SpecHarness::appendByte(s, c, b);
}
bool SpecSerial::popBack(State& s, StrC& c)
{
    if (c.k == S_CAT && !c.toks.empty() && c.toks.back().k == 'c') {
        c.toks.back().text.pop_back();
        if (c.toks.back().text.empty()) c.toks.pop_back();
        return true;
    }
    if (c.k != S_OUT) return false;
    if (c.p == A_COMMA) { c.p = A_ELEM; return true; }
    if (c.p == O_COMMA) { c.p = O_MEMBER; return true; }
    return false;
}
bool SpecSerial::fill(char byte, StrC& c)
{
    if (!ws(byte)) return false;
    c = StrC();
    c.k = S_CAT;
    Tok t;
    t.k = 'w';
    c.toks = { t };
    return true;
}
bool SpecSerial::emptyText(State& s, const StrC& c, bool& r)
{
    r = false;
    if (c.k == S_OUT) { if (c.q && c.p == START) r = I->choose(s, 2, "what was written before is empty"); return true; }
    for (auto& t : c.toks) if (t.k == 'c' || t.k == 'v') return true;
    r = I->choose(s, 2, "text is empty");
    return true;
}
// ---------------------------------------------------------------- is it the text of e?  1 yes, 0 no, -1 unknown
int SpecSerial::isSerial(State& s, StrC c, int e, std::string& why)
{
    if (c.k == S_ANY && c.d) { why = c.text; return 0; }
    if (c.k != S_OUT) {
        bool known = true;
        auto x = toksOf(s, c, known);
        if (!known) return -1;
        c = start();
        for (auto& z : x) c = feed(s, c, z);
    }
    c = literal(s, c);
    if (c.k == S_ANY) { why = c.text; return c.d ? 0 : -1; }
    if (c.p != DONE_) {
        why = c.p == START ? "nothing is written" : c.p >= STR_OPEN ? "the closing quote is missing" : "the text ends before the value does";
        return 0;
    }
    if (!c.d && !c.key) { why = "the text of another value"; return c.ent == e; }
    if (!c.d) { why = "another text than that of the value"; return I->isEntity(s, mkPtr(P_OBJ, c.ent, 0), e); }
    i64 tag = s.objc(e)->tag;
    why = "another kind of value";
    if (tag && tag != (c.d == 1 ? 5 : 6)) return 0;
    why = c.d == 1 ? "not each element once and in order" : "not each member once and in order, under its own key";
    return I->holds(s, mkPtr(P_OBJ, c.con, 0), c.d == 1 ? V_VEC : V_MAP, { { e, "all", "" } });
}
// ---------------------------------------------------------------- recursive functions
bool SpecSerial::recursive(const Function* F)
{
    auto it = rec.find(F);
    if (it != rec.end()) return it->second;
    std::set<const Function*> seen;
    std::vector<const Function*> q { F };
    bool r = false;
    while (!q.empty() && !r) {
        const Function* f = q.back();
        q.pop_back();
        for (auto& b : *f)
            for (auto& i : b)
                if (auto* cb = dyn_cast<CallBase>(&i)) {
                    const Function* c = cb->getCalledFunction();
                    if (c == F) r = true;
                    if (c && !c->isDeclaration() && seen.insert(c).second) q.push_back(c);
                }
    }
    return rec[F] = r;
}
char SpecSerial::kindAt(State& s, const Val& p)
{
    if (!p.isPtr(P_OBJ)) return 0;
    const Obj* o = s.objc((int)p.a);
    if (!o || o->dead) return 0;
    if (o->kind == 5 && p.b == (o->isMap ? 32 : 0)) return 'V';
    auto& l = I->lay;
    Val tag = cellGet(*o, (int)p.b + l.tagOff, l.tagSize), idx = cellGet(*o, (int)p.b + l.idxOff, 1);
    if (l.ok && tag.k == V_INT && idx.k == V_INT) for (auto& c : o->cells) if (c.off == p.b + l.varOff && (c.v.k == V_STR || c.v.k == V_PTR)) return 'V';
    for (auto& c : o->cells) {
        if (c.off != p.b) continue;
        if (c.v.k == V_VEC) return 'A';
        if (c.v.k == V_MAP) return 'O';
        if (c.v.k == V_STR) return 'S';
    }
    return 0;
}
void SpecSerial::begin(State& s, const Job& j)
{
    job = j;
    std::vector<Val> args;
    size_t nc = 0, nw = 0;
    for (char c : j.shape) {
        if (c == 'V' || c == 'A' || c == 'O') {
            int size = c == 'V' ? I->lay.size : c == 'A' ? 24 : 48, o = s.newObj(size, 2);
            s.obj(o)->ooff = -1;
            int k = c == 'A' ? 4 : c == 'O' ? 5 : j.kind;
            int e = newEntity(s, 1, 1 + k);
            if (c == 'V') I->entityValue(s, o, 0, k, e);
            else cellPut(*s.obj(o), 0, size, mkCon(c == 'A' ? V_VEC : V_MAP, Interp::ghostContent(e)));
            args.push_back(mkPtr(P_OBJ, o, 0));
        }
        else if (c == 'S' || c == 'R') {
            int o = s.newObj(32, 2);
            s.obj(o)->ooff = c == 'S' ? -2 : -3;
            if (c == 'S') { StrC b = start(); b.q = 1; cellPut(*s.obj(o), 0, 32, mkStr(b)); }
            args.push_back(mkPtr(P_OBJ, o, 0));
        }
        else if (c == 'i') args.push_back(mkTok(64, 90 + (i64)nw++, 8));
        else args.push_back(mkInt(j.widths[nc], (u64)j.consts[nc])), nc++;
    }
    I->pushFrame(s, I->info(j.F), args);
}
void SpecSerial::finish(State& s, const Val& ret)
{
    if (!job.F) return;
    musts++;
    StrC c;
    bool found = false;
    for (auto& o : s.objs)
        if (o.second->kind == 2 && (o.second->ooff == -2 || o.second->ooff == -3) && o.second->size == 32) {
            Val v = cellGet(*o.second, 0, 32);
            if (v.k == V_STR) c = strC(v), found = true;
        }
    std::string why, name = I->info(job.F)->dem;
    rows.insert(name + " writes the text of what it is given");
    int r = found ? isSerial(s, c, entity(s, 1), why) : -1;
    if (r < 0) { undecided++; I->unmodelled.insert("not decided: " + name + ": " + c.text); }
    else if (!r) I->report(s, "must", name + ": " + why);
}
bool SpecSerial::call(State& s, const std::string& n, const CallBase& cb, std::vector<Val>& a, Val& ret)
{
    if (n == "nd_size") { ret = mkTok(64, a[0].a, 8); return true; }
    if (n == "is_serial" || n == "is_serial_stream") {
        std::string why;
        StrC c = I->strAt(s, a[0]);
        int r = isSerial(s, c, entity(s, a[1].a), why);
        if (r == 0) I->report(s, "must", why);
        ret = r < 0 ? mkTop(1) : mkInt(1, r);
        if (r < 0) I->unmodelled.insert("not decided: " + c.text);
        return true;
    }
    const Function* F = cb.getCalledFunction();
    if (!F) return SpecHarness::call(s, n, cb, a, ret);
    FnInfo* f = I->info(F);
    if (f->base == "append_escaped_string" && a.size() >= 3) {
        StrC c = I->strAt(s, a[0]), t = a.size() > 2 ? I->textOf(s, a[2], a[1]) : I->strAt(s, a[1]);
        StrC e = anyText("escaped text");
        if (t.k == S_OPQ && (t.text == "text" || t.text == "name" || t.text == "cut")) {
            Tok k;
            k.k = 'e';
            k.id = t.ent;
            k.text = t.text;
            e = StrC();
            e.k = S_CAT;
            e.toks = { k };
        }
        else if (t.k == S_CONST && t.text.find_first_of("\"\\\b\f\n\r\t") == std::string::npos) e = t;
        else if (t.k == S_CAT) for (auto& k : t.toks) if (k.k == 'e') e = bad(s, "a text escaped twice");
        I->putStr(s, a[0], appendStr(s, c, e));
        return true;
    }
    // streams: the text is where the stream would be
    if (f->dem.find("std::basic_ostream<char, std::char_traits<char>>") != std::string::npos && a.size() >= 2) {
        size_t t = f->dem.find("__ostream_insert") != std::string::npos || f->base == "write" ? 3 : f->base == "put" || (f->base == "operator<<" && f->params.find(", char)") != std::string::npos) ? 1 : f->base == "operator<<" && f->params.find("char const*)") != std::string::npos ? 2 : 0;
        if (t && a[0].isPtr(P_OBJ) && kindAt(s, a[0]) == 'S') {
            StrC c = I->strAt(s, a[0]);
            if (t == 1) c = appendByte(s, c, a[1]);
            else c = appendStr(s, c, t == 2 ? I->cstr(s, a[1]) : I->textOf(s, a[1], a[2]));
            I->putStr(s, a[0], c);
            ret = a[0];
            return true;
        }
    }
    if (F->isDeclaration() || f->dem.compare(0, 5, "std::") == 0 || (job.F && s.st.empty()) || !recursive(F)) return SpecHarness::call(s, n, cb, a, ret);
    Job j;
    j.F = const_cast<Function*>(F);
    int ents = 0, texts = 0, ent = -1, text = -1;
    for (size_t i = 0; i < a.size(); i++) {
        if (F->hasParamAttribute((unsigned)i, Attribute::StructRet)) {
            auto* st = dyn_cast<StructType>(F->getParamStructRetType((unsigned)i));
            if (!st || !st->getName().contains("basic_string")) return SpecHarness::call(s, n, cb, a, ret);
            j.shape += 'R';
            texts++;
            text = (int)i;
            continue;
        }
        char k = a[i].k == V_PTR ? kindAt(s, a[i]) : 0;
        if (k == 'S') texts++, text = (int)i;
        else if (k) ents++, ent = (int)i;
        else if (F->getArg((unsigned)i)->getType()->isIntegerTy(64)) k = 'i';
        else if (F->getArg((unsigned)i)->getType()->isIntegerTy() && a[i].isInt()) { k = 'c'; j.consts.push_back(a[i].a); j.widths.push_back((int)F->getArg((unsigned)i)->getType()->getIntegerBitWidth()); }
        else return SpecHarness::call(s, n, cb, a, ret);
        j.shape += k;
    }
    bool noRet = cb.getType()->isVoidTy(), refRet = cb.getType()->isPointerTy();
    if (ents != 1 || texts != 1 || !(noRet || refRet)) return SpecHarness::call(s, n, cb, a, ret);
    std::string key = n + " " + j.shape;
    for (i64 c : j.consts) key += " " + std::to_string(c);
    if (jobs) jobs->emplace(key, j);
    contracts++;
    bool known = true;
    std::vector<Tok> toks;
    valueToks(s, a[ent], j.shape[ent], toks, known);
    StrC add = known ? StrC() : anyText("the text of a value of which nothing is known");
    if (known) {
        add = lit("");
        if (toks.size() == 1 && toks[0].k == 'c') add = lit(toks[0].text);
        else { add.k = S_CAT; add.toks = toks; }
    }
    if (j.shape[text] == 'R') I->putStr(s, a[text], add);
    else { I->putStr(s, a[text], appendStr(s, I->strAt(s, a[text]), add)); if (refRet) ret = a[text]; }
    return true;
}

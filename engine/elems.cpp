// Elements of containers of values: iteration over a container whose contents are only known as a whole, and the
// contents of containers that are put together.
// An element is an object of kind 5; its owner is the container it is part of.  est: 0 an element or the end,
// 1 an element, 2 the end.  A container into which the elements are put one after another is described by the
// contents of the owner and how far the transfer has come (ConC::part, ConC::src).
// An entity is what a value, container or text of unknown content is: an object that holds what has been decided about
// it (its kind in tag, other facts in cells).  Elements with a known index or key have an identity of their own (kind 6).
#include "interp.h"
using namespace llvm;

static void eachCon(State& s, const std::function<bool(ConC&)>& f)
{
    for (size_t i = 0; i < s.objs.size(); i++) {
        if (s.objs[i].second->dead) continue;
        for (size_t k = 0; k < s.objs[i].second->cells.size(); k++) {
            const Val& v = s.objs[i].second->cells[k].v;
            if (v.k != V_VEC && v.k != V_MAP) continue;
            ConC c = conC(v);
            VK kk = v.k;
            if (!f(c)) continue;
            s.obj(s.objs[i].first)->cells[k].v = mkCon(kk, c);
        }
    }
}
// ---------------------------------------------------------------- what has been decided about an entity
static const int FACTS = 4096;
i64 Interp::fact(State& s, int e, int key, i64 dflt)
{
    Val v = cellGet(*s.objc(e), FACTS + key * 8, 8);
    return v.k == V_TOK ? v.a : dflt;
}
void Interp::setFact(State& s, int e, int key, i64 v) { cellPut(*s.obj(e), FACTS + key * 8, 8, mkTok(64, v, 99)); }
int Interp::decide(State& s, int e, int key, int n, const std::string& what)
{
    i64 v = fact(s, e, key, -1);
    if (v >= 0) return (int)v;
    int c = choose(s, n, what);
    setFact(s, e, key, c);
    return c;
}
int Interp::identity(State& s, int e) { const Obj* o = s.objc(e); return o && o->entOf ? o->entOf : e; }
// does the size of entity e satisfy the comparison with n?  decides it if need be
bool Interp::sizeIs(State& s, int e, unsigned pred, i64 n)
{
    if (pred == CmpInst::ICMP_NE) return !sizeIs(s, e, CmpInst::ICMP_EQ, n);
    if (pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SGE) return !sizeIs(s, e, CmpInst::ICMP_ULT, n);
    if (pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_SGT) return !sizeIs(s, e, CmpInst::ICMP_ULT, n + 1);
    if (pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLE) return sizeIs(s, e, CmpInst::ICMP_ULT, n + 1);
    const Obj* eo = s.objc(e);
    if (eo && (eo->kind == 4 || eo->kind == 6) && eo->tag == 2 && fact(s, e, 1, 0) == 0) {
        // the text of a boolean is "true" or "false"
        int size = decide(s, e, 60, 2, "the boolean") ? 4 : 5;
        setFact(s, e, 1, size);
        setFact(s, e, 2, size);
    }
    i64 lo = fact(s, e, 1, 0), hi = fact(s, e, 2, 1ll << 40);
    if (pred == CmpInst::ICMP_EQ) {
        if (n < lo || n > hi) return false;
        if (lo == hi) return true;
        if (n < 1000 && fact(s, e, 300 + (int)n, 0)) return false;
        if (choose(s, 2, "size " + std::to_string(n))) { setFact(s, e, 1, n); setFact(s, e, 2, n); return true; }
        if (n == lo) setFact(s, e, 1, n + 1);
        else if (n == hi) setFact(s, e, 2, n - 1);
        else if (n < 1000) setFact(s, e, 300 + (int)n, 1);
        return false;
    }
    if (hi < n) return true;
    if (lo >= n) return false;
    if (choose(s, 2, "size below " + std::to_string(n))) { setFact(s, e, 2, n - 1); return true; }
    setFact(s, e, 1, n);
    return false;
}
// ---------------------------------------------------------------- iteration
static const char *NOT_NEXT = "elements are stored that are not the next ones", *NOT_AS_IT_WAS = "an element is not transferred as it was", *CHANGED = "elements were changed";
static const int NUMBERED = 2; // so many elements from the start have an identity of their own
int Interp::elementEntity(State& s, int ghost, i64 idx, const StrC* key)
{
    for (auto& o : s.objs)
        if (o.second->kind == 6 && o.second->ghost == ghost && o.second->idx == idx) {
            if (idx != IDX_KEY) return o.first;
            Val k = cellGet(*o.second, 0, 32);
            if (k.k == V_STR && sameText(s, strC(k), *key)) return o.first;
        }
    int e = s.newObj(0, 6);
    Obj* o = s.obj(e);
    o->ghost = ghost;
    o->idx = idx;
    if (key) cellPut(*o, 0, 32, mkStr(*key));
    return e;
}
bool Interp::sameText(State& s, const StrC& a, const StrC& b)
{
    if (a.k == S_CONST || b.k == S_CONST) return a.k == b.k && a.text == b.text;
    return a.k == S_OPQ && b.k == S_OPQ && a.text == b.text && a.ent == b.ent;
}
int Interp::newSlot(State& s, const Val& self, VK k)
{
    int e = s.newObj(k == V_VEC ? lay.size : 32 + lay.size, 5);
    bool fz = s.objc((int)self.a)->frozen;
    Obj* o = s.obj(e);
    o->owner = (int)self.a;
    o->ooff = (int)self.b;
    o->isMap = k == V_MAP;
    o->frozen = fz;
    return e;
}
// the only ghost of a container, which has to come last; -1 if there are several or it is not last
static int lastGhost(const ConC& c)
{
    int g = 0;
    for (size_t i = 0; i < c.segs.size(); i++) {
        if (c.segs[i].how == "elem") continue;
        if (i + 1 != c.segs.size()) return -1;
        g = (int)c.segs[i].id;
    }
    return g;
}
Val Interp::ghostBegin(State& s, const Val& self, VK k, const ConC& c)
{
    int g = c.k == C_SEQ ? lastGhost(c) : 0;
    int e = newSlot(s, self, k);
    Obj* o = s.obj(e);
    o->first = true;
    o->ghost = g;
    o->idx = explicitElems && g && k == V_VEC ? 0 : -1;
    o->est = c.k != C_SEQ && (c.nonempty == 1 || c.k == C_BUILT) ? 1 : 0;
    if (o->idx == 0) { int id = elementEntity(s, g, 0, nullptr); s.obj(e)->entOf = id; }
    return mkPtr(P_OBJ, e, 0);
}
Val Interp::elemBegin(State& s, const Val& self, VK k)
{
    ConC c = conAt(s, self, k);
    if (c.k == C_EMPTY) return elemEnd(s, self, k);
    if (c.k == C_SEQ) {
        settle(s, self, k);
        c = conAt(s, self, k);
        if (c.k == C_SEQ && lastGhost(c) < 0) throw Unmodelled { "iteration over a concatenation" };
        if (c.k == C_SEQ && !c.segs.empty() && c.segs[0].how == "elem") return mkPtr(P_OBJ, c.segs[0].id, 0);
        if (c.k == C_SEQ && c.segs.empty()) return elemEnd(s, self, k);
    }
    return ghostBegin(s, self, k, c);
}
Val Interp::elemEnd(State& s, const Val& self, VK k)
{
    conAt(s, self, k);
    int e = newSlot(s, self, k);
    s.obj(e)->est = 2;
    return mkPtr(P_OBJ, e, 0);
}
bool Interp::elemIsEnd(State& s, int e)
{
    const Obj* o = s.objc(e);
    if (!o) throw Bug { "lifetime", "use of an iterator of a container that is gone" };
    if (o->kind == 7) return false;
    const Obj* w = s.objc(o->owner);
    if (!w || w->dead) throw Bug { "lifetime", "use of an iterator of a container that is gone" };
    if (o->est) return o->est == 2;
    int g = o->ghost;
    i64 at = o->first ? 0 : o->idx;
    bool end;
    if (explicitElems && g) {
        i64 hi = fact(s, g, 2, 1ll << 40), lo = fact(s, g, 1, 0);
        if (at >= 0) end = lo > at ? false : hi <= at ? true : !sizeIs(s, g, CmpInst::ICMP_UGT, at);
        else end = hi <= NUMBERED ? true : choose(s, 2, "another element") == 0;
    }
    else end = choose(s, 2, "the end of the container");
    Obj* m = s.obj(e);
    m->est = end ? 2 : 1;
    Val own = mkPtr(P_OBJ, m->owner, m->ooff);
    VK k = m->isMap ? V_MAP : V_VEC;
    if (m->first && !g) {
        ConC c = conAt(s, own, k);
        if (end) { if (c.nonempty == 1) throw Kill {}; ConC z; putConQuiet(s, own, k, z); }
        else { c.nonempty = 1; putConQuiet(s, own, k, c); }
    }
    else if (end)
        eachCon(s, [&](ConC& c) {
            if (c.src != e || c.part != 1) return false;
            c.part = 0;
            c.src = 0;
            if (g) { c.segs.push_back({ g, c.segs.empty() ? "all" : c.text, "" }); c.text.clear(); }
            return true;
        });
    return end;
}
Val Interp::elemNext(State& s, int e)
{
    if (elemIsEnd(s, e)) throw Bug { "bounds", "an iterator goes past the end of its container" };
    Obj old = *s.objc(e);
    Val own = mkPtr(P_OBJ, old.owner, old.ooff);
    VK k = old.isMap ? V_MAP : V_VEC;
    if (old.kind == 7) {
        ConC c = conAt(s, own, k);
        for (size_t i = 0; i < c.segs.size(); i++)
            if (c.segs[i].id == e) {
                if (i + 1 == c.segs.size()) return elemEnd(s, own, k);
                if (c.segs[i + 1].how == "elem") return mkPtr(P_OBJ, c.segs[i + 1].id, 0);
                return ghostBegin(s, own, k, c);
            }
        throw Bug { "lifetime", "use of an iterator of a container that was changed" };
    }
    s.progress = true; // towards the end of the container
    auto shift = [&](int n) { eachCon(s, [&](ConC& c) { if (c.src == e && c.part == 2) { c.part = 1; c.src = n; return true; } return false; }); };
    for (auto& o : s.objs)
        if (o.second->kind == 5 && o.second->prev == e && !o.second->dead) { int n = o.first; shift(n); return mkPtr(P_OBJ, n, 0); }
    int n = newSlot(s, own, k);
    s.obj(n)->prev = e;
    Obj* o = s.obj(n);
    o->ghost = old.ghost;
    // (and all of them if there are few for certain)
    i64 few = old.idx >= 0 && old.ghost && !old.isMap ? fact(s, old.ghost, 2, 1ll << 40) : 1ll << 40;
    if (old.idx >= 0 && (old.idx + 1 < NUMBERED || (few <= 16 && old.idx + 1 < few))) {
        o->idx = old.idx + 1;
        int id = elementEntity(s, old.ghost, old.idx + 1, nullptr);
        s.obj(n)->entOf = id;
    }
    else if (few <= 16 && old.idx + 1 == few) o->idx = old.idx + 1;
    else if (old.idx >= 0) o->idx = -1;
    shift(n);
    return mkPtr(P_OBJ, n, 0);
}
// A loop that counts the elements: from the first element without an identity of its own on the counter is the index of an element.
void Interp::countLoop(State& s)
{
    std::set<int> gs;
    for (auto& o : s.objs) if ((o.second->kind == 2 || o.second->kind == 6) && fact(s, o.first, 90, 0) == 1) gs.insert(o.first);
    if (gs.empty()) return;
    bool any = false;
    forScalars(s, [&](Val& v) { if (v.k == V_INT && v.w == 64 && v.a == NUMBERED) any = true; });
    if (!any) return;
    for (int g : gs) {
        if (fact(s, g, 1, 0) < NUMBERED || fact(s, g, 2, 1ll << 40) < 1000) continue; // a container of known size is followed element by element
        int e = 0, own = 0, off = 0;
        for (auto& o : s.objs)
            if (o.second->kind == 5 && !o.second->dead && o.second->ghost == g && o.second->idx == NUMBERED - 1 && o.second->est == 1 && !o.second->isMap) {
                e = o.first;
                bool src = false;
                eachCon(s, [&](ConC& c) { if (c.src == e && c.part == 2) src = true; return false; });
                if (src) break;
            }
        int n = 0;
        if (e) n = (int)elemNext(s, e).a;
        else {
            for (auto& o : s.objs)
                for (auto& x : o.second->cells)
                    if (x.v.k == V_VEC && conC(x.v).k == C_SEQ && !conC(x.v).part && conC(x.v).segs.size() == 1 && conC(x.v).segs[0].id == g && conC(x.v).segs[0].how != "elem" && !own) own = o.first, off = x.off;
            if (!own) continue;
            n = newSlot(s, mkPtr(P_OBJ, own, off), V_VEC);
            s.obj(n)->ghost = g;
        }
        forScalars(s, [&](Val& v) { if (v.k == V_INT && v.w == 64 && v.a == NUMBERED) v = mkIdx(n); });
        return;
    }
}
// an index compared with the size of what it is an index into: -1 below, 0 equal, 1 above, 2 unknown
int Interp::idxSize(State& s, const Val& i, i64 more)
{
    i64 d = i.d - more;
    if (d < 0) return -1;
    if (d > 1) return 2;
    bool end = elemIsEnd(s, (int)i.a);
    if (d == 0) return end ? 0 : -1;
    if (end) return 1;
    return elemIsEnd(s, (int)elemNext(s, (int)i.a).a) ? 0 : -1;
}
// 1 equal, 0 different, -1 unknown
int Interp::elemSame(State& s, int a, int b)
{
    if (a == b) return 1;
    const Obj *x = s.objc(a), *y = s.objc(b);
    if (!x || !y) throw Bug { "lifetime", "use of an iterator of a container that is gone" };
    if (x->owner != y->owner || x->ooff != y->ooff) return 0;
    if (x->est == 2 || y->est == 2) return elemIsEnd(s, a) == elemIsEnd(s, b);
    if (x->kind == 7 || y->kind == 7) return 0;
    if (x->entOf && y->entOf) return x->entOf == y->entOf;
    return -1;
}
// a transfer of elements that ended: is what was transferred everything?
void Interp::settle(State& s, const Val& self, VK k)
{
    for (int i = 0; i < 3; i++) {
        ConC c = conAt(s, self, k);
        if (!c.part || !s.objc(c.src)) return;
        const Obj* w = s.objc(s.objc(c.src)->owner);
        if (!w || w->dead) {
            // the source is gone and the transfer has not come to the end
            ConC z;
            z.k = C_ANY;
            z.text = "a part of the elements";
            putConQuiet(s, self, k, z);
            return;
        }
        if (c.part == 2) { elemNext(s, c.src); continue; }
        elemIsEnd(s, c.src);
        return;
    }
}
static const char* KINDS[] = { "null", "boolean", "string", "number", "array", "object" };
void Interp::elemUse(State& s, int e)
{
    if (elemIsEnd(s, e)) throw Bug { "bounds", "use of an element past the end of its container" };
    if (s.objc(e)->kind == 7 || s.objc(e)->tag) return;
    int id = identity(s, e);
    int k = s.objc(id)->tag ? (int)s.objc(id)->tag - 1 : choose(s, 6, "type of the element");
    s.obj(id)->tag = 1 + k;
    int voff = s.objc(e)->isMap ? 32 : 0;
    entityValue(s, e, voff, k, id);
    Obj* o = s.obj(e);
    o->tag = 1 + k;
    if (o->isMap) {
        Val key = id != e ? cellGet(*s.objc(id), 0, 32) : Val();
        StrC t;
        t.k = S_OPQ;
        t.text = "name";
        t.ent = id;
        cellPut(*s.obj(e), 0, 32, key.k == V_STR ? key : mkStr(t));
    }
    s.obj(e)->written = false;
}
ConC Interp::ghostContent(int e)
{
    ConC c;
    c.k = C_SEQ;
    c.segs.push_back({ e, "all", "" });
    return c;
}
// a value of the given kind of which nothing else is known, standing for entity id, at offset voff of object e
void Interp::entityValue(State& s, int e, int voff, int k, int id)
{
    auto it = kinds.find(KINDS[k]);
    if (!lay.ok || it == kinds.end()) throw Unmodelled { "layout of json::value" };
    int cont = 0;
    if (k >= 4) {
        const char* tn = k == 4 ? "class.json::array" : "class.json::object";
        StructType* st = StructType::getTypeByName(M.getContext(), tn);
        int sz = st && st->isSized() ? (int)DL.getTypeAllocSize(st) : k == 4 ? 24 : 48;
        cont = s.newObj(sz, 1);
        s.obj(cont)->frozen = s.objc(e)->frozen;
        cellPut(*s.obj(cont), 0, sz, mkCon(k == 4 ? V_VEC : V_MAP, ghostContent(id)));
    }
    Obj* o = s.obj(e);
    cellPut(*o, voff + lay.tagOff, lay.tagSize, mkInt(lay.tagSize * 8, (u64)it->second));
    if (k < 4) {
        StrC t;
        t.k = S_OPQ;
        t.text = "text";
        t.ent = id;
        if (k == 0) t = StrC(), t.k = S_CONST;
        cellPut(*o, voff + lay.varOff, 32, mkStr(t));
        cellPut(*o, voff + lay.idxOff, 1, mkInt(8, (u64)altStr));
    }
    else {
        cellPut(*o, voff + lay.varOff, 8, mkPtr(P_OBJ, cont, 0));
        cellPut(*o, voff + lay.idxOff, 1, mkInt(8, (u64)(k == 4 ? altArr : altObj)));
    }
}
// a container whose elements were changed in place is no longer what it was
// 1 yes, 0 no, -1 unknown
int Interp::changed(State& s, int owner, int off)
{
    int res = 0;
    for (auto& o : s.objs) {
        if (o.second->kind != 5 || o.second->owner != owner || o.second->ooff != off || o.second->est == 2 || !o.second->tag) continue;
        bool w = o.second->written;
        for (auto& x : o.second->cells) if (x.v.isPtr(P_OBJ)) { const Obj* q = s.objc((int)x.v.a); if (!q || q->dead || q->written) w = true; }
        if (!w) continue;
        int r = isEntity(s, mkPtr(P_OBJ, o.first, o.second->isMap ? 32 : 0), identity(s, o.first));
        if (r == 0) return 1;
        if (r < 0) res = -1;
    }
    return res;
}
// does the container hold exactly what the entities are, in this order?  1 yes, 0 no, -1 unknown; leaves out those known to be empty
int Interp::holds(State& s, const Val& self, VK k, const std::vector<Seg>& want)
{
    settle(s, self, k);
    ConC c = conAt(s, self, k);
    if (int r = changed(s, (int)self.a, (int)self.b)) return r > 0 ? 0 : -1;
    auto strip = [&](const std::vector<Seg>& v) {
        std::vector<Seg> r;
        for (auto& g : v) { if (g.how != "elem" && fact(s, (int)g.id, 2, 1) == 0) continue;
            // members that are there already are not added again, and written over with what they are
            if (g.how != "elem" && g.how != "all" && r.size() && r.back().id == g.id && r.back().how != "elem") continue;
            r.push_back(g);
        }
        if (!r.empty() && r[0].how != "elem") r[0].how = "all";
        return r;
    };
    if (c.k == C_EMPTY) { c.k = C_SEQ; c.segs.clear(); }
    if (c.k == C_ANY && (c.text == NOT_NEXT || c.text == NOT_AS_IT_WAS || c.text == CHANGED)) return 0;
    if (c.k != C_SEQ) return -1;
    if (c.part) return 0; // a transfer that is known not to have come to the end
    auto a = strip(c.segs), b = strip(want);
    if (a == b) return 1;
    // one side may be known to be empty only after the decision
    for (int side = 0; side < 2; side++) {
        auto &u = side ? b : a, &v = side ? a : b;
        for (auto& g : u)
            if (g.how != "elem" && fact(s, (int)g.id, 1, 0) == 0 && std::find(v.begin(), v.end(), g) == v.end()) { sizeIs(s, (int)g.id, CmpInst::ICMP_EQ, 0); return holds(s, self, k, want); }
    }
    size_t elems = 0;
    for (auto& g : a) if (g.how == "elem") elems++;
    if (!elems) return 0;
    if (elems == a.size() && b.size() == 1) {
        // one by one
        int g = (int)b[0].id;
        if (!sizeIs(s, g, CmpInst::ICMP_EQ, (i64)elems)) return 0;
        if (k == V_MAP) return -1;
        int all = 1;
        for (size_t i = 0; i < elems; i++) {
            int r = isEntity(s, mkPtr(P_OBJ, a[i].id, 0), elementEntity(s, g, (i64)i, nullptr));
            if (r == 0) return 0;
            if (r < 0) all = -1;
        }
        return all;
    }
    if (b.empty()) return 0;
    return -1;
}
// does the value at p equal what the entity e is?  1 yes, 0 no, -1 unknown
int Interp::isEntity(State& s, const Val& p, int e)
{
    i64 tag = s.objc(e)->tag;
    const Obj* slot = p.isPtr(P_OBJ) ? s.objc((int)p.a) : nullptr;
    // an element that nobody has looked at is as it was
    if (slot && slot->kind == 5 && !slot->dead && !slot->tag && slot->est == 1) {
        int id = identity(s, (int)p.a);
        if (id == e) return 1;
        return -1;
    }
    if (!tag) {
        // the element has not been looked at: an explicit one is compared all the same
        if (s.objc(e)->kind != 6) return 0;
        Obj& o = objRef(s, p, false, "use");
        Val t = cellGet(o, (int)p.b + lay.tagOff, lay.tagSize);
        if (t.k != V_INT) return -1;
        int k = choose(s, 6, "type of the element");
        s.obj(e)->tag = tag = 1 + k;
    }
    Obj& o = objRef(s, p, false, "use");
    Val t = cellGet(o, (int)p.b + lay.tagOff, lay.tagSize);
    if (t.k != V_INT) return -1;
    if (t.a != kinds[KINDS[tag - 1]]) return 0;
    if (tag == 1) return 1;
    Val idx = cellGet(o, (int)p.b + lay.idxOff, 1);
    if (idx.k != V_INT) return -1;
    if (tag < 5) {
        if (idx.a != altStr) return 0;
        Val v = cellGet(o, (int)p.b + lay.varOff, 32);
        if (v.k != V_STR) return 0;
        if (strC(v).k == S_OPQ && strC(v).ent == e && strC(v).text == "text") return 1;
        StrC want;
        want.k = S_OPQ;
        want.ent = e;
        want.text = "text";
        return spec->textEq(s, strC(v), want);
    }
    if (idx.a != (tag == 5 ? altArr : altObj)) return 0;
    Val q = cellGet(o, (int)p.b + lay.varOff, 8);
    if (!q.isPtr(P_OBJ)) return q.isPtr(P_NULL) ? 0 : -1;
    const Obj* c = s.objc((int)q.a);
    if (!c || c->dead) return 0;
    for (auto& x : c->cells)
        if (x.v.k == V_VEC || x.v.k == V_MAP) return holds(s, mkPtr(P_OBJ, q.a, x.off), x.v.k, { { e, "all", "" } });
    return -1;
}
// an element is put at the end of a container; true if it is the next one of another container
bool Interp::elemPush(State& s, ConC& c, const Val& slot, const StrC* key, bool over)
{
    int e = 0;
    const Obj *so = slot.isPtr(P_OBJ) ? s.objc((int)slot.a) : nullptr, *co = c.part ? s.objc(c.src) : nullptr;
    bool from = so && co && so->kind == 5 && co->kind == 5 && so->owner == co->owner && so->ooff == co->ooff && slot.a != c.src;
    if (c.part == 2 && from && !elemIsEnd(s, c.src)) { c.src = (int)elemNext(s, c.src).a; c.part = 1; so = s.objc((int)slot.a); }
    if (c.part == 1 && from && so->entOf && so->entOf == s.objc(c.src)->entOf) c.src = (int)slot.a;
    if (c.part == 1) e = c.src;
    else if (c.k == C_EMPTY || (explicitElems && c.k == C_SEQ && !c.part)) {
        for (auto& o : s.objs)
            if (o.second->kind == 5 && o.second->est == 1 && o.second->first && o.second->isMap == (key != nullptr) && isEntity(s, slot, identity(s, o.first)) == 1) { e = o.first; break; }
    }
    if (!e) {
        if (c.part) { c = ConC(); c.k = C_ANY; c.nonempty = 1; c.text = NOT_NEXT; return true; }
        return false;
    }
    const Obj* o = s.objc(e);
    int id = identity(s, e);
    int ok = o->est == 1 ? isEntity(s, slot, id) : 0;
    if (ok && key && !(key->k == S_OPQ && key->ent == id && key->text == "name")) ok = ok == 1 && key->k == S_ANY ? -1 : 0;
    if (ok != 1) { c = ConC(); c.k = C_ANY; c.nonempty = 1; c.text = ok ? "an element is perhaps not transferred as it was" : NOT_AS_IT_WAS; return true; }
    const Obj* w = s.objc(o->owner);
    if (!w || w->dead) throw Bug { "lifetime", "use of an element of a container that is gone" };
    if (o->ghost) {
        if (c.k == C_EMPTY) { c.k = C_SEQ; c.segs.clear(); }
        c.part = 2;
        c.src = e;
        std::string how = !key ? "all" : over ? "over" : "under";
        if (!c.segs.empty() && !c.text.empty() && c.text != how) { c = ConC(); c.k = C_ANY; c.nonempty = 1; return true; }
        c.text = how;
        return true;
    }
    // what the source held when the first element was taken
    ConC r = c.part == 1 ? c : conAt(s, mkPtr(P_OBJ, o->owner, o->ooff), o->isMap ? V_MAP : V_VEC);
    r.part = 2;
    r.src = e;
    r.nonempty = 1;
    c = r;
    return true;
}
// ---------------------------------------------------------------- containers put together element by element
static ConC anyCon(const char* why, int nonempty = -1) { ConC c; c.k = C_ANY; c.text = why; c.nonempty = nonempty; return c; }
// object el (which holds a value) becomes the last element of the container
void Interp::appendElem(State& s, const Val& self, VK k, ConC& c, int el)
{
    if (c.k == C_EMPTY) { c.k = C_SEQ; c.segs.clear(); }
    if (c.k != C_SEQ || c.part || c.segs.size() > 12) { c = anyCon("unknown elements", 1); return; }
    Obj* o = s.obj(el);
    o->kind = 7;
    o->owner = (int)self.a;
    o->ooff = (int)self.b;
    o->isMap = k == V_MAP;
    c.segs.push_back({ el, "elem", "" });
}
// a copy of the value at p, with everything it owns, at offset off of object el
void Interp::copyValue(State& s, const Val& p, int el, int off)
{
    Obj src = objRef(s, p, false, "copy");
    for (auto& x : src.cells) {
        if (x.off < p.b || x.off >= p.b + lay.size) continue;
        Val v = x.v;
        if (v.isPtr(P_OBJ)) {
            const Obj* c = s.objc((int)v.a);
            if (!c || c->dead) throw Bug { "lifetime", "copies a value whose content is gone" };
            int n = s.newObj(c->size, 1);
            std::vector<Cell> cs = c->cells;
            for (auto& y : cs) {
                Val z = y.v;
                if (z.k == V_VEC || z.k == V_MAP) z = mkCon(z.k, copyContent(s, mkPtr(P_OBJ, v.a, y.off), z.k, mkPtr(P_OBJ, n, y.off)));
                cellPut(*s.obj(n), y.off, y.size, z);
            }
            v = mkPtr(P_OBJ, n, v.b);
        }
        cellPut(*s.obj(el), off + (x.off - (int)p.b), x.size, v);
    }
}
ConC Interp::copyContent(State& s, const Val& from, VK k, const Val& to)
{
    settle(s, from, k);
    ConC c = conAt(s, from, k);
    if (changed(s, (int)from.a, (int)from.b)) return anyCon("a copy of elements that were changed");
    if (c.k != C_SEQ) return c;
    for (auto& g : c.segs) {
        if (g.how != "elem") continue;
        int n = s.newObj(k == V_VEC ? lay.size : 32 + lay.size, 7);
        s.obj(n)->owner = (int)to.a;
        s.obj(n)->ooff = (int)to.b;
        s.obj(n)->isMap = k == V_MAP;
        if (k == V_MAP) cellPut(*s.obj(n), 0, 32, cellGet(*s.objc((int)g.id), 0, 32));
        copyValue(s, mkPtr(P_OBJ, g.id, k == V_MAP ? 32 : 0), n, k == V_MAP ? 32 : 0);
        g.id = n;
    }
    return c;
}
// the content goes to another container
ConC Interp::moveContent(State& s, const Val& from, VK k, const Val& to)
{
    settle(s, from, k);
    ConC c = conAt(s, from, k);
    for (size_t i = 0; i < s.objs.size(); i++) {
        const Obj& o = *s.objs[i].second;
        if ((o.kind != 5 && o.kind != 7) || o.owner != from.a || o.ooff != from.b) continue;
        Obj* m = s.obj(s.objs[i].first);
        m->owner = (int)to.a;
        m->ooff = (int)to.b;
    }
    return c;
}
// 1 present, 0 absent, and the element
Val Interp::mapFind(State& s, const Val& self, const StrC& key)
{
    settle(s, self, V_MAP);
    ConC c = conAt(s, self, V_MAP);
    if (c.k == C_EMPTY) return elemEnd(s, self, V_MAP);
    if (c.k == C_SEQ) {
        if (c.part) throw Unmodelled { "search while elements are transferred" };
        int ng = 0, gh = 0;
        for (auto& g : c.segs) {
            if (g.how != "elem") { ng++; gh = (int)g.id; continue; }
            Val kv = cellGet(*s.objc((int)g.id), 0, 32);
            if (kv.k != V_STR) continue;
            if (sameText(s, strC(kv), key)) return mkPtr(P_OBJ, g.id, 0);
            if (strC(kv).k == S_CONST && key.k == S_CONST) continue;
            if (guess(s, 2, "the keys are equal")) return mkPtr(P_OBJ, g.id, 0);
        }
        if (ng > 1) throw Unmodelled { "search in merged members" };
        if (!ng) return elemEnd(s, self, V_MAP);
        int id = 0;
        if (key.k == S_CONST || key.k == S_OPQ) {
            // an element met in an iteration has its own name
            if (key.k == S_OPQ && key.text == "name" && s.objc(key.ent) && s.objc(key.ent)->ghost == gh) {
                for (auto& o : s.objs) if (o.second->kind == 5 && o.second->owner == self.a && o.second->ooff == self.b && o.second->est == 1 && identity(s, o.first) == key.ent) return mkPtr(P_OBJ, o.first, 0);
                throw Unmodelled { "search for a member met before" };
            }
            if (fact(s, gh, 2, 1) == 0) return elemEnd(s, self, V_MAP);
            id = elementEntity(s, gh, IDX_KEY, &key);
            if (!s.objc(id)->est) {
                int here = choose(s, 2, "the member is there");
                if (here && fact(s, gh, 1, 0) == 0) setFact(s, gh, 1, 1);
                s.obj(id)->est = here ? 1 : 2;
            }
            if (s.objc(id)->est == 2) return elemEnd(s, self, V_MAP);
        }
        else if (!choose(s, 2, "the member is there")) return elemEnd(s, self, V_MAP);
        for (auto& o : s.objs) if (id && o.second->kind == 5 && o.second->owner == self.a && o.second->ooff == self.b && o.second->entOf == id) return mkPtr(P_OBJ, o.first, 0);
        int e = newSlot(s, self, V_MAP);
        Obj* o = s.obj(e);
        o->ghost = gh;
        o->entOf = id;
        o->est = 1;
        return mkPtr(P_OBJ, e, 0);
    }
    // any elements
    if (explicitElems ? !choose(s, 2, "the member is there") : !guess(s, 2, "the member is there")) return elemEnd(s, self, V_MAP);
    int e = newSlot(s, self, V_MAP);
    s.obj(e)->est = 1;
    return mkPtr(P_OBJ, e, 0);
}
// element i of a vector, or null if there is none
Val Interp::vecAt(State& s, const Val& self, const Val& idx0)
{
    settle(s, self, V_VEC);
    Val idx = idx0.k == V_IDX ? idx0 : concretize(s, idx0);
    ConC c = conAt(s, self, V_VEC);
    if (idx.k == V_IDX) {
        const Obj* o = s.objc((int)idx.a);
        if (!o || o->owner != self.a || o->ooff != self.b || idx.d < 0 || idx.d > 1) throw Unmodelled { "an index into another container" };
        int n = (int)idx.a;
        if (idx.d == 1 && !elemIsEnd(s, n)) n = (int)elemNext(s, n).a;
        if (elemIsEnd(s, n)) return mkNull();
        return mkPtr(P_OBJ, n, 0);
    }
    if (c.k == C_EMPTY) return mkNull();
    if (c.k == C_SEQ) {
        if (c.part) throw Unmodelled { "access while elements are transferred" };
        i64 i = idx.a;
        if (idx.isInt()) {
            for (auto& g : c.segs) {
                if (g.how == "elem") { if (i-- == 0) return mkPtr(P_OBJ, g.id, 0); continue; }
                if (i < 0 || sizeIs(s, (int)g.id, CmpInst::ICMP_ULE, i)) {
                    if (&g == &c.segs.back()) return mkNull();
                    throw Unmodelled { "access to a concatenation" };
                }
                return slotFor(s, self, (int)g.id, i, i >= NUMBERED ? i : i);
            }
            return mkNull();
        }
        if (idx.k == V_TOK && idx.b == 7 && idx.c == 0 && c.segs.size() == 1 && c.segs[0].how != "elem") {
            int g = (int)c.segs[0].id;
            if (!tokBelow(s, g, idx)) return mkNull();
            return slotFor(s, self, g, IDX_TOK + idx.a, -1);
        }
    }
    if (explicitElems ? !choose(s, 2, "the element is there") : !guess(s, 2, "the element is there")) return mkNull();
    int e = newSlot(s, self, V_VEC);
    s.obj(e)->est = 1;
    return mkPtr(P_OBJ, e, 0);
}
// is the unknown index below the size of e?
bool Interp::tokBelow(State& s, int e, const Val& idx)
{
    return tokSize(s, e, idx) < 0;
}
// the unknown index compared with the size of e
int Interp::tokSize(State& s, int e, const Val& idx)
{
    if (fact(s, e, 2, 1) == 0) return decide(s, e, 300 + (int)idx.a, 2, "the index is 0") ? 0 : 1;
    for (auto& o : s.objs) if ((o.second->kind == 2 || o.second->kind == 6) && fact(s, o.first, 700 + (int)idx.a, 0) == 1) return 1;
    int r = decide(s, e, 400 + (int)idx.a, 3, "the index is past the end 0, in range 1, the size 2");
    if (r == 1 && fact(s, e, 1, 0) == 0) setFact(s, e, 1, 1);
    return r == 0 ? 1 : r == 1 ? -1 : 0;
}
Val Interp::slotFor(State& s, const Val& self, int ghost, i64 idx, i64 pos)
{
    int id = elementEntity(s, ghost, idx, nullptr);
    for (auto& o : s.objs) if (o.second->kind == 5 && o.second->owner == self.a && o.second->ooff == self.b && o.second->entOf == id && o.second->est == 1) return mkPtr(P_OBJ, o.first, 0);
    int e = newSlot(s, self, V_VEC);
    Obj* o = s.obj(e);
    o->ghost = ghost;
    o->entOf = id;
    o->est = 1;
    o->idx = pos;
    o->first = pos == 0;
    return mkPtr(P_OBJ, e, 0);
}
// the contents of two containers compared: 1, 0, -1 unknown
int Interp::sameContent(State& s, const Val& a, const Val& b, VK k)
{
    settle(s, a, k);
    settle(s, b, k);
    ConC x = conAt(s, a, k), y = conAt(s, b, k);
    if (changed(s, (int)a.a, (int)a.b) || changed(s, (int)b.a, (int)b.b)) return -1;
    auto ghost = [&](const ConC& c) { return c.k == C_SEQ && !c.part && c.segs.size() == 1 && c.segs[0].how != "elem" ? (int)c.segs[0].id : 0; };
    auto none = [&](const ConC& c) { return c.k == C_EMPTY || (c.k == C_SEQ && !c.part && c.segs.empty()); };
    if (none(x) && none(y)) return 1;
    int g = ghost(x), h = ghost(y);
    if (none(x) && h) return sizeIs(s, h, CmpInst::ICMP_EQ, 0);
    if (none(y) && g) return sizeIs(s, g, CmpInst::ICMP_EQ, 0);
    if (g && h) return entEqual(s, g, h);
    return -1;
}
// are the texts or contents of two entities equal?
int Interp::entEqual(State& s, int g, int h)
{
    if (g == h) return 1;
    if (g > h) std::swap(g, h);
    int a = (int)s.objc(g)->ooff, b = (int)s.objc(h)->ooff;
    if (s.objc(g)->kind != 2 || s.objc(h)->kind != 2) return -1;
    i64 lo = fact(s, g, 1, 0), hi = fact(s, g, 2, 1ll << 40), l2 = fact(s, h, 1, 0), h2 = fact(s, h, 2, 1ll << 40);
    if (lo > h2 || l2 > hi) return 0;
    if (hi == 0 && h2 == 0) return 1;
    return decide(s, g, 500 + a * 40 + b, 2, "the contents are equal");
}
bool Interp::isEmptyEntity(State& s, int e) { return sizeIs(s, e, CmpInst::ICMP_EQ, 0); }

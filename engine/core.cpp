// Byte sets, bits, states, canonical forms and joins of states.
#include "core.h"

// ---------------------------------------------------------------- byte sets
namespace {
struct MHash { size_t operator()(const M256& m) const { u64 h = 1469598103934665603ull; for (int i = 0; i < 4; i++) { h ^= m.w[i]; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
std::unordered_map<M256, int, MHash> g_maskIds;
std::vector<M256> g_masks;
}
int internMask(const M256& m)
{
    auto it = g_maskIds.find(m);
    if (it != g_maskIds.end()) return it->second;
    int id = (int)g_masks.size();
    g_masks.push_back(m);
    g_maskIds[m] = id;
    return id;
}
const M256& maskOf(int id) { return g_masks[id]; }
std::string chStrPublic(int c)
{
    char b[16];
    if (c == '\n') return "\\n";
    if (c == '\t') return "\\t";
    if (c == '\r') return "\\r";
    if (c == '\\') return "\\\\";
    if (c >= 33 && c < 127) return std::string(1, (char)c);
    snprintf(b, sizeof b, "\\x%02x", c);
    return b;
}
std::string setStr(const M256& m)
{
    if (m == M256::all()) return "any";
    std::string r = "[";
    for (int i = 0; i < 256;) {
        if (!m.test(i)) { i++; continue; }
        int j = i;
        while (j + 1 < 256 && m.test(j + 1)) j++;
        r += chStrPublic(i);
        if (j > i) { if (j > i + 1) r += "-"; r += chStrPublic(j); }
        i = j + 1;
    }
    return r + "]";
}

// ---------------------------------------------------------------- bits
std::vector<Bit> bitsOf(const Val& v)
{
    if (v.k == V_BITS) return static_cast<const BitsP*>(v.p.get())->b;
    std::vector<Bit> r(v.w, BT());
    if (v.k == V_INT)
        for (int i = 0; i < v.w; i++) r[i] = BC(i < 64 ? (u64)v.a >> i & 1 : 0);
    return r;
}
Val mkBits(std::vector<Bit> b)
{
    if (b.size() <= 64) {
        u64 x = 0;
        bool c = true, t = true;
        for (size_t i = 0; i < b.size(); i++) {
            if (b[i].t > 1) c = false;
            if (b[i].t != 2) t = false;
            if (b[i].t == 1) x |= 1ull << i;
        }
        if (c) return mkInt((int)b.size(), x);
        if (t) return mkTop((int)b.size());
    }
    auto p = std::make_shared<BitsP>();
    Val r;
    r.k = V_BITS;
    r.w = (uint16_t)b.size();
    p->b = std::move(b);
    r.p = p;
    return r;
}
Bit norm(const State& s, Bit b)
{
    if (b.t != 3) return b;
    M256 set = s.setOf(b.var), m = maskOf(b.mask) & set;
    if (m.none()) return B0();
    if (m == set) return B1();
    return { 3, b.var, internMask(m) };
}

// ---------------------------------------------------------------- state
template <class T> static int findIdx(const std::vector<std::pair<int, T>>& v, int id)
{
    auto it = std::lower_bound(v.begin(), v.end(), id, [](const std::pair<int, T>& a, int b) { return a.first < b; });
    return it != v.end() && it->first == id ? (int)(it - v.begin()) : -1;
}
Obj* State::obj(int id)
{
    int i = findIdx(objs, id);
    if (i < 0) return nullptr;
    auto& p = objs[i].second;
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
}
const Obj* State::objc(int id) const
{
    int i = findIdx(objs, id);
    return i < 0 ? nullptr : objs[i].second.get();
}
Buf* State::buf(int id)
{
    int i = findIdx(bufs, id);
    if (i < 0) return nullptr;
    auto& p = bufs[i].second;
    if (p.use_count() > 1) p = std::make_shared<Buf>(*p);
    return p.get();
}
const Buf* State::bufc(int id) const
{
    int i = findIdx(bufs, id);
    return i < 0 ? nullptr : bufs[i].second.get();
}
M256 State::setOf(int var) const
{
    int i = findIdx(vars, var);
    return i < 0 ? M256::all() : vars[i].second;
}
void State::setSet(int var, const M256& m)
{
    int i = findIdx(vars, var);
    if (i >= 0) vars[i].second = m;
}
int State::newObj(int size, int kind)
{
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->kind = (uint8_t)kind;
    objs.push_back({ nextId, o });
    return nextId++;
}
int State::newBuf()
{
    bufs.push_back({ nextId, std::make_shared<Buf>() });
    return nextId++;
}

// ---------------------------------------------------------------- references inside values
static void refsOf(const Val& v, RefVisitor& f)
{
    switch (v.k) {
    case V_PTR:
        if (v.pk == P_OBJ || v.pk == P_SD || v.pk == P_IT) f.obj((int)v.a);
        if (v.pk == P_BUF) { f.buf((int)v.a); f.pos((int)v.a, v.b); }
        break;
    case V_DIFF: f.buf((int)v.a); f.pos((int)v.a, v.b); f.pos((int)v.a, v.c); break;
    case V_IDX: f.obj((int)v.a); break;
    case V_BITS: for (auto& b : static_cast<const BitsP*>(v.p.get())->b) if (b.t == 3) f.var(b.var); break;
    case V_AGG: for (auto& x : aggOf(v)) refsOf(x, f); break;
    case V_STR:
    case V_SZ: {
        auto& c = strC(v);
        if (c.ent) f.obj(c.ent);
        if (c.con) f.obj(c.con);
        if (c.key) f.obj(c.key);
        for (auto& t : c.toks) if (t.id) f.obj(t.id);
        for (auto& y : c.bytes) for (auto& b : y) if (b.t == 3) f.var(b.var);
        if (c.buf >= 0) { f.buf(c.buf); if (c.k == S_RAW || c.k == S_TRANS) { f.pos(c.buf, c.p); f.pos(c.buf, c.q); } if (c.k == S_OUT) f.pos(c.buf, c.p); }
        break;
    }
    case V_VEC:
    case V_MAP:
    case V_CNT:
        if (conC(v).src) f.obj(conC(v).src);
        for (auto& g : conC(v).segs) f.obj((int)g.id);
        break;
    default: break;
    }
}
void visitRefs(const Val& v, RefVisitor& f) { refsOf(v, f); }

template <class F> static void specPos(SpecS& sp, F f)
{
    for (auto& x : sp.x) f(x);
    for (auto& r : sp.fr) { f(r.ps); f(r.pe); f(r.ks); f(r.ke); }
}

// ---------------------------------------------------------------- canonical form
std::string canon(State& s)
{
    struct Coll : RefVisitor
    {
        State* s;
        std::vector<int> order;
        std::set<int> seen;
        std::map<int, std::set<i64>> olds;
        void obj(int o) override { if (s->objc(o) && seen.insert(o).second) order.push_back(o); }
        void buf(int) override { }
        void pos(int b, i64 p) override { if (p == UNKPOS || isEndPos(p)) return; auto* q = s->bufc(b); if (q && p < q->base) olds[b].insert(p); }
        void var(int) override { }
    } c;
    c.s = &s;
    for (auto& o : s.objs) if (o.second->kind == 2 || o.second->kind == 4) c.obj(o.first);
    if (s.excObj) c.obj(s.excObj);
    for (auto& e : s.caught) c.obj(e.first);
    for (auto& f : s.st) {
        for (auto& v : f->env) visitRefs(v, c);
        for (auto& v : f->tmp) visitRefs(v, c);
    }
    int kept = 0;
    for (size_t i = 0; i < c.order.size(); i++) {
        const Obj* o = s.objc(c.order[i]);
        if (!o->dead) {
            if (o->owner) c.obj(o->owner);
            if (o->ghost) c.obj(o->ghost);
            if (o->entOf) c.obj(o->entOf);
            for (auto& x : s.objc(c.order[i])->cells) visitRefs(x.v, c);
        }
        if (i + 1 == c.order.size())
            for (auto& y : s.objs) {
                if (y.second->kind == 6 && c.seen.count(y.second->ghost)) c.obj(y.first);
                // an element with an identity that was written is part of what its container holds
                if (y.second->kind == 5 && y.second->entOf && y.second->tag && y.second->est == 1 && !c.seen.count(y.first) && c.seen.count(y.second->owner) && !s.objc(y.second->owner)->dead && kept < 16) {
                    bool w = y.second->written;
                    for (auto& x : y.second->cells) if (x.v.isPtr(P_OBJ)) { const Obj* q = s.objc((int)x.v.a); if (!q || q->dead || q->written || c.seen.count((int)x.v.a)) w = true; }
                    if (w) { kept++; c.obj(y.first); }
                }
            }
    }
    // what is written into an element that nothing refers to any more is remembered as a change of the container
    for (auto& y : s.objs) {
        if (y.second->kind != 5 || c.seen.count(y.first) || !c.seen.count(y.second->owner)) continue;
        bool w = y.second->written;
        for (auto& x : y.second->cells) if (x.v.isPtr(P_OBJ)) { const Obj* q = s.objc((int)x.v.a); if (q && q->written) w = true; }
        if (!w || s.objc(y.second->owner)->dead) continue;
        int own = y.second->owner, off = y.second->ooff;
        VK k = y.second->isMap ? V_MAP : V_VEC;
        Obj* o = s.obj(own);
        for (auto& x : o->cells) if (x.off == off && x.v.k == k) { ConC z; z.k = C_ANY; z.text = "elements were changed"; x.v = mkCon(k, z); }
    }
    if (!s.bufs.empty()) specPos(s.sp, [&](i64& p) { c.pos(s.bufs[0].first, p); });
    // rename
    Renamer rn;
    int id = 1;
    for (auto& b : s.bufs) rn.bufs[b.first] = id++;
    for (auto& o : c.order) rn.objs[o] = id++;
    for (auto& b : s.bufs) {
        auto& B = *b.second;
        i64 nb = B.base > 0 ? 1 << 20 : 0;
        auto& ol = c.olds[b.first];
        i64 n = (i64)ol.size(), j = 0;
        for (i64 p : ol) rn.pos[{ b.first, p }] = nb - 16 * (n - j++);
        // positions at and after base keep their distance: handled by shift
        std::set<i64> more;
        struct Late : RefVisitor
        {
            int id; i64 base; std::set<i64>* m;
            void obj(int) override { }
            void buf(int) override { }
            void var(int) override { }
            void pos(int b, i64 p) override { if (b == id && p != UNKPOS && !isEndPos(p) && p >= base) m->insert(p); }
        } L;
        L.id = b.first; L.base = B.base; L.m = &more;
        for (auto& f : s.st) { for (auto& v : f->env) visitRefs(v, L); for (auto& v : f->tmp) visitRefs(v, L); }
        for (auto& o : c.order) if (!s.objc(o)->dead) for (auto& x : s.objc(o)->cells) visitRefs(x.v, L);
        if (b.first == s.bufs[0].first) specPos(s.sp, [&](i64& p) { L.pos(b.first, p); });
        for (i64 p : more) rn.pos[{ b.first, p }] = nb + (p - B.base);
    }
    // variables: windows, remembered bytes, then by first use
    std::vector<int> vo;
    auto addVar = [&](int v) { if (!rn.vars.count(v)) { rn.vars[v] = 0; vo.push_back(v); } };
    for (auto& b : s.bufs) {
        for (int v : b.second->win) addVar(v);
        for (auto& p : b.second->old) if (c.olds[b.first].count(p.first)) addVar(p.second);
    }
    struct VarC : RefVisitor
    {
        std::function<void(int)> f;
        void obj(int) override { }
        void buf(int) override { }
        void pos(int, i64) override { }
        void var(int v) override { f(v); }
    } vc;
    vc.f = addVar;
    // normalise bits first
    auto normVal = [&](auto&& self, Val& v) -> void {
        if (v.k == V_BITS) {
            auto b = bitsOf(v);
            bool ch = false;
            for (auto& x : b) { Bit n = norm(s, x); if (n != x) { x = n; ch = true; } }
            if (ch) v = mkBits(b);
        }
        else if (v.k == V_AGG) {
            auto a = aggOf(v);
            for (auto& x : a) self(self, x);
            v = mkAgg(a);
        }
    };
    for (auto& f : s.st) {
        if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
        for (auto& v : f->env) { normVal(normVal, v); visitRefs(v, vc); }
        for (auto& v : f->tmp) { normVal(normVal, v); visitRefs(v, vc); }
    }
    for (auto& o : c.order) {
        bool any = false;
        for (auto& x : s.objc(o)->cells) if (x.v.k == V_BITS || x.v.k == V_AGG) any = true;
        if (!any || s.objc(o)->dead) continue;
        for (auto& x : s.obj(o)->cells) { normVal(normVal, x.v); visitRefs(x.v, vc); }
    }
    for (int v : vo) rn.vars[v] = id++;
    // rebuild
    Enc e;
    std::vector<std::pair<int, std::shared_ptr<Obj>>> no;
    for (auto& f : s.st) {
        for (auto& v : f->env) v = rn.val(v);
        for (auto& v : f->tmp) v = rn.val(v);
        std::vector<int> al;
        for (int a : f->allocas) if (rn.objs.count(a)) al.push_back(rn.objs[a]);
        std::sort(al.begin(), al.end());
        f->allocas = al;
        e.i((i64)(intptr_t)f->fn); e.i((i64)(intptr_t)f->bb); e.i((i64)(intptr_t)f->pc); e.i(f->stage);
        for (auto& v : f->env) e.val(v);
        e.i((i64)f->tmp.size());
        for (auto& v : f->tmp) e.val(v);
        for (int a : al) e.i(a);
        e.i(-1);
    }
    for (auto& o : c.order) {
        auto n = std::make_shared<Obj>(*s.objc(o));
        if (n->dead) n->cells.clear();
        if (n->ghost) { n->ghost = rn.O(n->ghost); e.i(n->ghost); e.i(n->idx); }
        if (n->entOf) { n->entOf = rn.O(n->entOf); e.i(n->entOf); }
        if (n->prev) { n->prev = c.seen.count(n->prev) ? rn.O(n->prev) : 0; if (n->prev) { e.i(-78); e.i(n->prev); } }
        if (n->frozen) e.i(-77);
        if (n->owner) { n->owner = rn.O(n->owner); e.i(n->owner); e.i(n->ooff); e.i(n->est); e.i(n->first); e.i(n->isMap); }
        for (auto& x : n->cells) x.v = rn.val(x.v);
        e.i(n->kind); e.i(n->dead); e.i(n->written); e.i(n->size); e.i(n->tag);
        for (auto& x : n->cells) { e.i(x.off); e.i(x.size); e.val(x.v); }
        e.i(-7);
        no.push_back({ rn.objs[o], n });
    }
    std::vector<std::pair<int, std::shared_ptr<Buf>>> nbuf;
    bool first = true;
    for (auto& b : s.bufs) {
        auto n = std::make_shared<Buf>(*b.second);
        i64 ob = n->base;
        n->base = ob > 0 ? 1 << 20 : 0;
        for (auto& v : n->win) v = rn.vars[v];
        std::vector<std::pair<i64, int>> old;
        for (auto& p : n->old) if (c.olds[b.first].count(p.first)) old.push_back({ rn.P(b.first, p.first), rn.vars[p.second] });
        n->old = old;
        e.i(n->kind); e.i(n->ctx); e.i(n->base); e.i((i64)n->win.size()); e.i(n->tag);
        for (auto& p : old) { e.i(p.first); e.i(p.second); }
        e.i(-9);
        nbuf.push_back({ rn.bufs[b.first], n });
        if (first) { specPos(s.sp, [&](i64& p) { p = rn.P(b.first, p); }); first = false; }
    }
    std::vector<std::pair<int, M256>> nv;
    for (int v : vo) nv.push_back({ rn.vars[v], s.setOf(v) });
    std::sort(nv.begin(), nv.end(), [](auto& a, auto& b) { return a.first < b.first; });
    if (s.excObj) s.excObj = rn.O(s.excObj);
    for (auto& x : s.caught) x.first = rn.O(x.first);
    s.objs = no;
    s.bufs = nbuf;
    s.vars = nv;
    s.nextId = id;
    // spec and the rest
    auto& sp = s.sp;
    e.i(sp.mode); e.i(sp.aux); e.i(sp.aux2); e.i(sp.cm * 2 + sp.lost); e.i(s.fuzzy);
    for (auto& r : sp.fr) { e.i(r.type); e.i(r.n); e.i(r.pend); e.i(r.ps); e.i(r.pe); e.i(r.ks); e.i(r.ke); }
    e.i(-11);
    for (i64 x : sp.x) e.i(x);
    for (i64 x : sp.v) e.i(x);
    e.i(-12);
    for (auto& t : s.toks) { e.i(t.first); e.i(t.second); }
    e.i(s.excObj); e.s(s.excType);
    for (auto& x : s.caught) { e.i(x.first); e.s(x.second); }
    e.i((i64)s.vars.size());
    s.choices.clear();
    s.choiceAt = 0;
    return e.k;
}

// scalars of a canonical state, in a fixed order
static void scalVal(Val& v, const std::function<void(Val&)>& f)
{
    if (v.k == V_INT || v.k == V_BITS) f(v);
    else if (v.k == V_AGG) {
        auto a = aggOf(v);
        for (auto& x : a) scalVal(x, f);
        v = mkAgg(a);
    }
}
static bool hasScal(const Val& v) { return v.k == V_INT || v.k == V_BITS || v.k == V_AGG; }
void forScalars(State& s, const std::function<void(Val&)>& f)
{
    for (auto& fr : s.st) {
        if (fr.use_count() > 1) fr = std::make_shared<Frame>(*fr);
        for (auto& v : fr->env) scalVal(v, f);
        for (auto& v : fr->tmp) scalVal(v, f);
    }
    for (auto& o : s.objs) {
        bool any = false;
        for (auto& x : o.second->cells) any |= hasScal(x.v);
        if (!any) continue;
        if (o.second.use_count() > 1) o.second = std::make_shared<Obj>(*o.second);
        for (auto& x : o.second->cells) scalVal(x.v, f);
    }
}

// Is b included in a?  Both canonical with the same key.
static bool bitsIncluded(const State& a, const State& b, std::vector<Val>& as, std::vector<Val>& bs)
{
    for (size_t i = 0; i < as.size(); i++) {
        if (as[i].k == V_INT && bs[i].k == V_INT) { if (as[i].a != bs[i].a) return false; continue; }
        auto x = bitsOf(as[i]), y = bitsOf(bs[i]);
        for (size_t j = 0; j < x.size(); j++) {
            if (x[j] == y[j]) continue;
            if (x[j].t == 2) continue;
            Bit n = norm(b, x[j]), m = norm(b, y[j]);
            if (n != m) return false;
        }
    }
    return true;
}
static bool remIncluded(const State& a, const State& b)
{
    for (size_t i = 0; i < a.bufs.size(); i++) {
        auto &x = *a.bufs[i].second, &y = *b.bufs[i].second;
        if (x.rmin > y.rmin) return false;
        if (x.rmax >= 0 && (y.rmax < 0 || y.rmax > x.rmax)) return false;
    }
    return true;
}
static bool remEqual(const State& a, const State& b)
{
    for (size_t i = 0; i < a.bufs.size(); i++) {
        auto &x = *a.bufs[i].second, &y = *b.bufs[i].second;
        if (x.rmin != y.rmin || x.rmax != y.rmax) return false;
    }
    return true;
}
// what was rounded away holds for both, or is given up
static bool knownJoin(State& a, const State& b)
{
    bool ch = false;
    for (size_t i = 0; i < a.bufs.size(); i++) {
        const Buf *x = a.bufs[i].second.get(), *y = b.bufs[i].second.get();
        i64 xk = std::max(x->known, x->rmin), yk = std::max(y->known, y->rmin);
        if (xk <= yk) continue;
        a.buf(a.bufs[i].first)->known = yk;
        ch = true;
    }
    return ch;
}
int tryJoin(State& a, State& b, std::vector<Val>& as, std::vector<Val>& bs)
{
    if (a.vars.size() != b.vars.size() || as.size() != bs.size()) return 0;
    int diff = -1, nd = 0;
    bool sub = true;
    for (size_t i = 0; i < a.vars.size(); i++)
        if (a.vars[i].second != b.vars[i].second) {
            diff = (int)i;
            nd++;
            if (!b.vars[i].second.subset(a.vars[i].second)) sub = false;
        }
    if (sub && remIncluded(a, b) && bitsIncluded(a, b, as, bs)) return knownJoin(a, b) ? 2 : 1;
    if (nd != 1 || !remEqual(a, b)) return 0;
    int v = a.vars[diff].first;
    M256 sa = a.vars[diff].second, sb = b.vars[diff].second, both = sa & sb, all = sa | sb;
    std::vector<Val> out = as;
    for (size_t i = 0; i < as.size(); i++) {
        if (as[i].k == V_INT && bs[i].k == V_INT && as[i].a == bs[i].a) continue;
        auto x = bitsOf(as[i]), y = bitsOf(bs[i]);
        bool ch = false;
        for (size_t j = 0; j < x.size(); j++) {
            if (x[j] == y[j] && x[j].t != 3) continue;
            if (x[j] == y[j] && x[j].var != v) continue;
            if (x[j].t == 2 || y[j].t == 2) { if (x[j].t == y[j].t) continue; return 0; }
            auto fn = [&](const Bit& q, const M256& set, M256& m) {
                if (q.t == 0) { m = M256(); return true; }
                if (q.t == 1) { m = set; return true; }
                if (q.var != v) return false;
                m = maskOf(q.mask) & set;
                return true;
            };
            M256 mx, my;
            if (!fn(x[j], sa, mx) || !fn(y[j], sb, my)) return 0;
            if (((mx ^ my) & both) != M256()) return 0;
            M256 m = mx | my;
            ch = true;
            x[j] = m.none() ? B0() : m == all ? B1() : Bit { 3, v, internMask(m) };
        }
        if (ch) out[i] = mkBits(x);
    }
    a.vars[diff].second = all;
    knownJoin(a, b);
    size_t k = 0;
    forScalars(a, [&](Val& q) { q = out[k++]; });
    as = out;
    return 2;
}

// ---------------------------------------------------------------- memory cells
Val cellGet(const Obj& o, int off, int size)
{
    for (auto& c : o.cells)
        if (c.off == off && c.size == size) return c.v;
    return Val();
}
void cellClear(Obj& o, int off, int size)
{
    std::vector<Cell> keep;
    for (auto& c : o.cells) {
        if (c.off + c.size <= off || c.off >= off + size) { keep.push_back(c); continue; }
        // partly overwritten scalars keep the remaining bytes
        if ((c.v.k == V_INT || c.v.k == V_BITS || c.v.k == V_TOP) && c.v.w == c.size * 8) {
            auto b = bitsOf(c.v);
            for (int i = 0; i < c.size; i++)
                if (c.off + i < off || c.off + i >= off + size)
                    keep.push_back({ c.off + i, 1, mkBits(std::vector<Bit>(b.begin() + 8 * i, b.begin() + 8 * i + 8)) });
            continue;
        }
        if ((c.v.k == V_STR || c.v.k == V_VEC || c.v.k == V_MAP || c.v.k == V_STREAM) && !(off <= c.off && c.off + c.size <= off + size))
            throw Unmodelled { "write into the inside of a library object" };
    }
    o.cells = keep;
}
void cellPut(Obj& o, int off, int size, const Val& v)
{
    cellClear(o, off, size);
    Cell c { off, size, v };
    o.cells.insert(std::upper_bound(o.cells.begin(), o.cells.end(), c, [](const Cell& a, const Cell& b) { return a.off < b.off; }), c);
}

std::string exactKey(State& s)
{
    std::string k = canon(s);
    Enc e;
    forScalars(s, [&](Val& v) {
        for (auto& b : bitsOf(v)) { e.i(b.t); if (b.t == 3) { e.i(b.var); e.i(internMask(maskOf(b.mask) & s.setOf(b.var))); } }
    });
    for (auto& v : s.vars) e.i(internMask(v.second));
    for (auto& b : s.bufs) { e.i(b.second->rmin); e.i(b.second->rmax); }
    return k + "|" + e.k;
}

#pragma once
#include "ai.h"
struct RefVisitor
{
    virtual void obj(int) = 0;
    virtual void buf(int) = 0;
    virtual void pos(int, i64) = 0;
    virtual void var(int) = 0;
};
void visitRefs(const Val& v, RefVisitor& f);
std::string canon(State& s);
void forScalars(State& s, const std::function<void(Val&)>& f);
int tryJoin(State& a, State& b, std::vector<Val>& as, std::vector<Val>& bs); // 0 no, 1 b included in a, 2 a extended
Val cellGet(const Obj& o, int off, int size);
void cellClear(Obj& o, int off, int size);
void cellPut(Obj& o, int off, int size, const Val& v);
std::string chStrPublic(int c);
struct Renamer
{
    std::unordered_map<int, int> objs, bufs, vars;
    std::map<std::pair<int, i64>, i64> pos; // by old buffer id
    i64 P(int b, i64 p) const { auto it = pos.find({ b, p }); return it == pos.end() ? p : it->second; }
    int O(int o) const { auto it = objs.find(o); return it == objs.end() ? -1 : it->second; }
    int B(int o) const { auto it = bufs.find(o); return it == bufs.end() ? -1 : it->second; }
    int V(int o) const { auto it = vars.find(o); return it == vars.end() ? -1 : it->second; }
    StrC str(const StrC& c) const
    {
        StrC r = c;
        if (c.ent) r.ent = O(c.ent);
        if (c.con) r.con = O(c.con);
        if (c.key) r.key = O(c.key);
        for (auto& t : r.toks) if (t.id) t.id = O(t.id);
        for (auto& y : r.bytes) for (auto& b : y) if (b.t == 3) b.var = V(b.var);
        if (c.buf >= 0) { r.buf = B(c.buf); if (c.k == S_RAW || c.k == S_TRANS) { r.p = P(c.buf, c.p); r.q = P(c.buf, c.q); } if (c.k == S_OUT) r.p = P(c.buf, c.p); }
        return r;
    }
    Val val(const Val& v) const
    {
        Val r = v;
        switch (v.k) {
        case V_PTR:
            if (v.pk == P_OBJ || v.pk == P_SD || v.pk == P_IT) r.a = O((int)v.a);
            if (v.pk == P_BUF) { r.a = B((int)v.a); r.b = P((int)v.a, v.b); }
            break;
        case V_IDX: r.a = O((int)v.a); break;
        case V_DIFF: r.a = B((int)v.a); r.b = P((int)v.a, v.b); r.c = P((int)v.a, v.c); break;
        case V_BITS: {
            auto p = std::make_shared<BitsP>(*static_cast<const BitsP*>(v.p.get()));
            for (auto& b : p->b) if (b.t == 3) b.var = V(b.var);
            r.p = p;
            break;
        }
        case V_AGG: { auto p = std::make_shared<AggP>(); for (auto& x : aggOf(v)) p->v.push_back(val(x)); r.p = p; break; }
        case V_STR:
        case V_SZ: if (strC(v).buf >= 0 || strC(v).ent || strC(v).con || strC(v).key || !strC(v).toks.empty() || !strC(v).bytes.empty()) r.p = std::make_shared<StrC>(str(strC(v))); break;
        case V_VEC:
        case V_MAP:
        case V_CNT:
            if (conC(v).src || !conC(v).segs.empty()) {
                auto p = std::make_shared<ConC>(conC(v));
                if (p->src) p->src = O(p->src);
                for (auto& g : p->segs) g.id = O((int)g.id);
                r.p = p;
            }
            break;
        default: break;
        }
        return r;
    }
};

struct Enc
{
    std::string k;
    void i(i64 v) { if (v >= -120 && v <= 120) k.push_back((char)v); else { k.push_back((char)127); k.append((const char*)&v, 8); } }
    void s(const std::string& t) { i((i64)t.size()); k += t; }
    void str(const StrC& c) { i(c.k); s(c.text); i(c.buf); i(c.p); i(c.q); i(c.d); i(c.nonempty); i(c.ent); i(c.con); i(c.back); i(c.key); i((i64)c.toks.size()); for (auto& t : c.toks) { i(t.k); i(t.id); s(t.text); } for (auto& y : c.bytes) for (auto& b : y) { i(b.t); if (b.t == 3) { i(b.var); i(b.mask); } } }
    void con(const ConC& c) { i(c.k); i(c.d); i(c.behind); s(c.text); i(c.nonempty); i(c.extra); i(c.part); i(c.src); i((i64)c.segs.size()); for (auto& g : c.segs) { i(g.id); s(g.how); s(g.key); } }
    void val(const Val& v)
    {
        if (v.k == V_INT || v.k == V_BITS) { k.push_back('#'); i(v.w); return; }
        i(v.k);
        switch (v.k) {
        case V_PTR: i(v.pk); i(v.a); i(v.b); i(v.c); i(v.d); break;
        case V_AGG: i((i64)aggOf(v).size()); for (auto& x : aggOf(v)) val(x); break;
        case V_STR: case V_SZ: str(strC(v)); i(v.a); i(v.b); i(v.c); break;
        case V_VEC: case V_MAP: case V_CNT: con(conC(v)); i(v.a); i(v.b); break;
        case V_UNDEF: break;
        default: i(v.w); i(v.a); i(v.b); i(v.c); i(v.d);
        }
    }
};

std::string exactKey(State& s); // canonicalises s
void renameAll(State& s);

// std::vector<json::value> and std::map<std::string, json::value>, in terms of their abstract contents.
#include "interp.h"
using namespace llvm;

static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }
static ConC anyCon(const char* why, int nonempty = -1) { ConC c; c.k = C_ANY; c.text = why; c.nonempty = nonempty; return c; }

bool Interp::mayFail(State& s, const char* what)
{
    if (!allocFails || s.tokGet(-5, 1) != 0 || !choose(s, 2, std::string(what) + " fails for want of memory")) return false;
    s.tokSet(-5, 2);
    return true;
}
// the function that constructs an element, among those that f calls
Function* Interp::constructOf(FnInfo& f)
{
    std::vector<Function*> q { f.F };
    std::set<Function*> seen { f.F };
    for (size_t i = 0; i < q.size() && i < 200; i++)
        for (auto& bb : *q[i])
            for (auto& in : bb)
                if (auto* cb = dyn_cast<CallBase>(&in))
                    if (Function* g = cb->getCalledFunction()) {
                        if (g->isDeclaration() || !seen.insert(g).second) continue;
                        FnInfo* gi = info(g);
                        if (!starts(gi->cls, "std::") && !starts(gi->cls, "__gnu_cxx")) continue;
                        if (gi->base == "construct" && starts(gi->cls, "std::allocator_traits")) {
                            // the one that makes elements, not the one that moves them to other memory
                            if (g->arg_size() == f.F->arg_size() + 1 || f.cls == "std::map<STR, json::value>") return g;
                            continue;
                        }
                        q.push_back(g);
                    }
    return nullptr;
}
// [b, e) as a range of elements: the container they are the whole of, or single values
// the elements of a container are destroyed, with what they hold
static void dropElements(State& s, const Val& con, int depth)
{
    if (depth > 4) return;
    for (size_t i = 0; i < s.objs.size(); i++) {
        const Obj& o = *s.objs[i].second;
        if (o.dead || (o.kind != 5 && o.kind != 7) || o.owner != con.a || o.ooff != con.b) continue;
        std::vector<Val> in;
        for (auto& c : o.cells) if (c.v.isPtr(P_OBJ) && c.v.b == 0 && s.objc((int)c.v.a) && s.objc((int)c.v.a)->kind == 1) in.push_back(c.v);
        Obj* m = s.obj(s.objs[i].first);
        m->dead = true;
        m->owner = m->ooff = 0;
        for (auto& h : in) { dropElements(s, h, depth + 1); s.obj((int)h.a)->dead = true; }
    }
}
static void rehome(State& s, int owner, int off, const Val& to)
{
    for (size_t i = 0; i < s.objs.size(); i++) {
        const Obj& o = *s.objs[i].second;
        if ((o.kind != 5 && o.kind != 7) || o.owner != owner || o.ooff != off) continue;
        Obj* m = s.obj(s.objs[i].first);
        m->owner = (int)to.a;
        m->ooff = (int)to.b;
    }
}
// whether the container that is part of an element of another one goes with that element
static bool goesWith(State& s, const Val& con, const Val& part, int depth)
{
    if (depth > 4 || con.k != V_PTR || part.k != V_PTR) return false;
    for (auto& o : s.objs) {
        const Obj& e = *o.second;
        if (e.dead || (e.kind != 5 && e.kind != 7) || e.owner != con.a || e.ooff != con.b || (e.kind == 5 && e.est == 2)) continue;
        if (o.first == part.a) return true;
        for (auto& c : e.cells)
            if (c.v.isPtr(P_OBJ) && c.v.b == 0 && (c.v.a == part.a || goesWith(s, c.v, part, depth + 1))) return true;
    }
    return false;
}
struct Range { bool ok = false; Val owner; VK k = V_VEC; std::vector<Val> each; };
static Range rangeOf(Interp& I, State& s, const Val& b, const Val& e, int stride)
{
    Range r;
    if (!b.isPtr(P_OBJ) || !e.isPtr(P_OBJ)) { if (b.isPtr(P_NULL) && e.isPtr(P_NULL)) r.ok = true; return r; }
    const Obj *x = s.objc((int)b.a), *y = s.objc((int)e.a);
    if (!x || !y) throw Bug { "lifetime", "a range of elements that are gone" };
    if (y->kind == 5 && y->est == 2 && b.b == 0 && e.b == 0) {
        Val own = mkPtr(P_OBJ, y->owner, y->ooff);
        VK k = y->isMap ? V_MAP : V_VEC;
        if (x->kind == 5 && x->owner == y->owner && x->ooff == y->ooff && (x->first || x->est == 2)) {
            ConC c = I.conAt(s, own, k);
            if (x->est == 2 && c.k != C_EMPTY && !(c.k == C_SEQ && c.segs.empty())) { r.ok = true; return r; }
            r.ok = true;
            r.owner = own;
            r.k = k;
            return r;
        }
        if (x->kind == 7 && x->owner == y->owner && x->ooff == y->ooff) {
            ConC c = I.conAt(s, own, k);
            if (c.k == C_SEQ && !c.segs.empty() && c.segs[0].id == b.a) { r.ok = true; r.owner = own; r.k = k; return r; }
        }
        return r;
    }
    if (b.a == e.a && x->kind != 5 && x->kind != 7 && (e.b - b.b) % stride == 0) {
        for (i64 o = b.b; o < e.b; o += stride) r.each.push_back(mkPtr(P_OBJ, b.a, o));
        r.ok = true;
    }
    return r;
}
static void appendContent(ConC& c, const ConC& add)
{
    if (add.k == C_EMPTY) return;
    if (c.k == C_EMPTY) { c = add; return; }
    if (c.k != C_SEQ || add.k != C_SEQ || c.part || add.part || c.segs.size() + add.segs.size() > 16) { c = anyCon("unknown elements"); return; }
    for (auto& g : add.segs) c.segs.push_back(g);
}
MR Interp::vecModel(State& s, const CallBase& cb, FnInfo& f, std::vector<Val>& a, Val& ret)
{
    const std::string &B = f.base, &P = f.params, &D = f.dem;
    auto thr = [&](const char* t) { throwType(s, t); return M_THROW; };
    Val self = a.empty() ? Val() : a[0];
    auto con = [&](const Val& p) { return conAt(s, p, V_VEC); };
    auto put = [&](const Val& p, const ConC& c) { putCon(s, p, V_VEC, c); };
    auto takeRange = [&](const Val& b, const Val& e, bool move, ConC& c) {
        Range r = rangeOf(*this, s, b, e, lay.size);
        if (!r.ok || r.k != V_VEC) throw Unmodelled { "a range of elements in " + D };
        if (r.owner.k == V_PTR) {
            appendContent(c, copyContent(s, r.owner, V_VEC, self));
            if (move) put(r.owner, anyCon("elements that were moved from", con(r.owner).nonempty));
        }
        for (auto& p : r.each) {
            int n = s.newObj(lay.size, 7);
            copyValue(s, p, n, 0);
            appendElem(s, self, V_VEC, c, n);
        }
    };
    bool mvIt = has(P, "std::move_iterator");
    if (B == "vector") {
        if (P == "()" || starts(P, "(std::allocator")) { put(self, ConC()); return M_RET; }
        if (P == "(std::vector<json::value>&&)") {
            ConC c = moveContent(s, a[1], V_VEC, self);
            put(a[1], ConC());
            put(self, c);
            return M_RET;
        }
        if (!explicitElems) throw Unmodelled { D };
        if (P == "(std::vector<json::value> const&)") {
            con(a[1]);
            if (mayFail(s, "a copy")) return thr("_ZTISt9bad_alloc");
            put(self, copyContent(s, a[1], V_VEC, self));
            return M_RET;
        }
        if (starts(P, "(unsigned long, std::allocator")) {
            if (mayFail(s, "an allocation")) return thr("_ZTISt9bad_alloc");
            if (a[1].isInt() && a[1].a == 0) put(self, ConC());
            else put(self, anyCon("new elements", a[1].isInt() ? 1 : -1));
            return M_RET;
        }
        if (starts(P, "(std::initializer_list<json::value>")) {
            ConC c;
            if (mayFail(s, "a copy")) return thr("_ZTISt9bad_alloc");
            put(self, c);
            Val n = concretize(s, a[2]);
            if (!n.isInt()) throw Unmodelled { D };
            if (n.a) takeRange(a[1], ptrAdd(s, a[1], n.a * lay.size), false, c);
            put(self, c);
            return M_RET;
        }
        if (cb.arg_size() >= 3 && a[1].k == V_PTR && a[2].k == V_PTR && !starts(P, "(std::")) {
            ConC c;
            if (mayFail(s, "a copy")) return thr("_ZTISt9bad_alloc");
            put(self, c);
            takeRange(a[1], a[2], mvIt, c);
            put(self, c);
            return M_RET;
        }
        throw Unmodelled { D };
    }
    if (B == "~vector") { con(self); cellClear(objRef(s, self, true, "destroy"), (int)self.b, 24); return M_RET; }
    if (B == "emplace_back" || B == "push_back") {
        // construct the element with the constructor that is used
        Frame& fr = s.top();
        if (fr.stage == 0) {
            if (explicitElems && mayFail(s, "an insertion")) return thr("_ZTISt9bad_alloc");
            std::string want = P.find("json::value&&") != std::string::npos ? "_ZN4json5valueC2EOS0_" : P.find("json::value const&") != std::string::npos ? "_ZN4json5valueC2ERKS0_" : "";
            Function* ctor = want.empty() ? constructOf(f) : M.getFunction(want);
            if (!ctor || ctor->isDeclaration()) throw Unmodelled { "element constructor of " + D };
            int slot = s.newObj(lay.size, 1);
            Frame& g = s.top();
            g.stage = 1;
            g.tmp = { mkPtr(P_OBJ, slot, 0) };
            std::vector<Val> args;
            if (want.empty()) args.push_back(mkPtr(P_TOP, 0));
            args.push_back(mkPtr(P_OBJ, slot, 0));
            for (size_t i = 1; i < a.size(); i++) args.push_back(a[i]);
            pushFrame(s, info(ctor), args);
            return M_AGAIN;
        }
        Val slot = fr.tmp[0];
        if (explicitElems) settle(s, self, V_VEC); // which may decide that an earlier transfer is complete
        ConC c = con(self);
        ret = mkPtr(P_TOP, 0);
        if (!elemPush(s, c, slot, nullptr)) {
            if (explicitElems) { appendElem(s, self, V_VEC, c, (int)slot.a); ret = slot; }
            else c = spec->vecPush(s, c, slot);
        }
        put(self, c);
        return M_RET;
    }
    if (B == "size") {
        ConC c = con(self);
        if (explicitElems) { settle(s, self, V_VEC); c = con(self); }
        if (c.k == C_EMPTY) { ret = mkInt(64, 0); return M_RET; }
        ret.k = V_CNT;
        ret.w = 64;
        ret.p = std::make_shared<ConC>(c);
        return M_RET;
    }
    if (B == "empty") { con(self); settle(s, self, V_VEC); ret = mkInt(1, isEmptyCon(s, con(self))); return M_RET; }
    if (B == "reserve" || B == "shrink_to_fit") {
        con(self);
        objRef(s, self, true, "use");
        if (mayFail(s, "an allocation")) return thr("_ZTISt9bad_alloc");
        return M_RET;
    }
    if (B == "clear") { con(self); dropElements(s, self, 0); put(self, ConC()); return M_RET; }
    if (B == "operator=" && P == "(std::vector<json::value>&&)") {
        ret = self;
        con(self);
        // (a vector that is moved to itself ends up empty)
        if (self.a == a[1].a && self.b == a[1].b) { put(self, ConC()); return M_RET; }
        ConC c = moveContent(s, a[1], V_VEC, mkPtr(P_OBJ, -3, 0));
        put(a[1], ConC());
        dropElements(s, self, 0);
        rehome(s, -3, 0, self);
        put(self, c);
        return M_RET;
    }
    if (B == "begin" || B == "cbegin") { ret = elemBegin(s, self, V_VEC); return M_RET; }
    if (B == "end" || B == "cend") { ret = elemEnd(s, self, V_VEC); return M_RET; }
    if (!explicitElems) throw Unmodelled { D };
    if ((B == "operator=" || B == "assign") && P == "(std::vector<json::value> const&)") {
        ret = self;
        con(self);
        con(a[1]);
        if (self.a == a[1].a && self.b == a[1].b) return M_RET;
        if (goesWith(s, self, a[1], 0)) throw Bug { "lifetime", "an array is assigned a part of itself, which is destroyed with the old elements" };
        if (mayFail(s, "a copy")) {
            // what is left of the target is some valid content
            put(self, anyCon("a failed assignment"));
            return thr("_ZTISt9bad_alloc");
        }
        ConC c = copyContent(s, a[1], V_VEC, mkPtr(P_OBJ, -3, 0));
        dropElements(s, self, 0);
        rehome(s, -3, 0, self);
        put(self, c);
        return M_RET;
    }
    if (B == "at") {
        Val e = vecAt(s, self, a[1]);
        if (e.isPtr(P_NULL)) return thr("_ZTISt12out_of_range");
        ret = e;
        return M_RET;
    }
    if (B == "operator[]" || B == "front") {
        Val e = vecAt(s, self, B == "front" ? mkInt(64, 0) : a[1]);
        if (e.isPtr(P_NULL)) throw Bug { "bounds", "accesses an element that is not there" };
        ret = e;
        return M_RET;
    }
    if (B == "back") {
        settle(s, self, V_VEC);
        ConC c = con(self);
        if (isEmptyCon(s, c)) throw Bug { "bounds", "accesses an element that is not there" };
        if (c.k == C_SEQ && !c.segs.empty() && c.segs.back().how == "elem") { ret = mkPtr(P_OBJ, c.segs.back().id, 0); return M_RET; }
        int e = newSlot(s, self, V_VEC);
        s.obj(e)->est = 1;
        ret = mkPtr(P_OBJ, e, 0);
        return M_RET;
    }
    if (B == "insert" && cb.arg_size() >= 4 && a[2].k == V_PTR && a[3].k == V_PTR) { // (this, position, first, last)
        const Obj* p = a[1].isPtr(P_OBJ) ? s.objc((int)a[1].a) : nullptr;
        if (!p || p->kind != 5 || p->owner != self.a || p->ooff != self.b) throw Unmodelled { D };
        if (mayFail(s, "an insertion")) return thr("_ZTISt9bad_alloc");
        settle(s, self, V_VEC);
        ConC c = con(self);
        bool atEnd = elemIsEnd(s, (int)a[1].a), atBegin = p->first;
        c = con(self);
        if (atEnd) takeRange(a[2], a[3], mvIt, c);
        else if (atBegin) {
            ConC z;
            takeRange(a[2], a[3], mvIt, z);
            appendContent(z, c);
            c = z;
        }
        else c = anyCon("an insertion in the middle");
        put(self, c);
        ret = mkPtr(P_TOP, 0);
        return M_RET;
    }
    if (B == "erase" || B == "insert" || B == "resize" || B == "emplace" || B == "pop_back" || B == "assign") {
        if (B == "erase" && cb.arg_size() == 2 && a[1].isPtr(P_OBJ)) {
            if (elemIsEnd(s, (int)a[1].a)) throw Bug { "bounds", "erases an element that is not there" };
        }
        con(self);
        put(self, anyCon("edited elements"));
        ret = mkPtr(P_TOP, 0);
        return M_RET;
    }
    if (B == "swap") {
        ConC x = moveContent(s, self, V_VEC, mkPtr(P_OBJ, -3, 0)), y = moveContent(s, a[1], V_VEC, self);
        rehome(s, -3, 0, a[1]);
        put(self, y);
        put(a[1], x);
        return M_RET;
    }
    throw Unmodelled { D };
}
MR Interp::mapModel(State& s, const CallBase& cb, FnInfo& f, std::vector<Val>& a, Val& ret)
{
    const std::string &B = f.base, &P = f.params, &D = f.dem;
    auto thr = [&](const char* t) { throwType(s, t); return M_THROW; };
    Val self = a.empty() ? Val() : a[0];
    auto con = [&](const Val& p) { return conAt(s, p, V_MAP); };
    auto put = [&](const Val& p, const ConC& c) { putCon(s, p, V_MAP, c); };
    StrC nothing;
    nothing.k = S_CONST;
    // puts the member in slot (name at 0, value at 32) there; true if it is new
    bool maybe = false; // whether the member was there before is not known
    auto putMember = [&](int slot, bool over, Val& it) {
        Val kv = cellGet(*s.objc(slot), 0, 32);
        if (kv.k != V_STR) throw Unmodelled { "member without a name" };
        StrC key = strC(kv);
        settle(s, self, V_MAP);
        ConC c = con(self);
        maybe = c.k != C_EMPTY && !(c.k == C_SEQ && c.segs.empty());
        if (elemPush(s, c, mkPtr(P_OBJ, slot, 32), &key, over)) {
            put(self, c);
            it = mkPtr(P_TOP, 0);
            // the source may be part of a member of this very container, which may be the one that is written over
            int in = over && c.part && s.objc(c.src) ? s.objc(c.src)->owner : 0;
            for (int up = 0; in && up < 8; up++) {
                int holder = 0;
                for (auto& o : s.objs)
                    for (auto& x : o.second->cells) if (!o.second->dead && (o.second->kind == 5 || o.second->kind == 7) && x.v.isPtr(P_OBJ) && x.v.a == in) holder = o.first;
                if (!holder) break;
                const Obj* h = s.objc(holder);
                if (h->owner == self.a && h->ooff == self.b && choose(s, 2, "the member that holds the source is written over")) throw Bug { "lifetime", "an element that is read belongs to a member that is written over" };
                in = h->owner;
            }
            return true;
        }
        Val e = mapFind(s, self, key);
        c = con(self);
        if (elemIsEnd(s, (int)e.a)) {
            appendElem(s, self, V_MAP, c, slot);
            put(self, c);
            it = s.objc(slot)->kind == 7 ? mkPtr(P_OBJ, slot, 0) : mkPtr(P_TOP, 0);
            return true;
        }
        it = e;
        if (over) {
            objRef(s, e, true, "write");
            Obj src = *s.objc(slot);
            Obj* dst = s.obj((int)e.a);
            std::vector<Cell> keep;
            for (auto& x : dst->cells) {
                if (x.off < 32 || x.off >= 32 + lay.size) keep.push_back(x);
                else if (x.v.isPtr(P_OBJ) && s.objc((int)x.v.a) && s.objc((int)x.v.a)->kind == 1) s.obj((int)x.v.a)->dead = true;
            }
            dst->cells = keep;
            for (auto& x : src.cells) if (x.off >= 32) cellPut(*dst, x.off, x.size, x.v);
        }
        return false;
    };
    if (B == "map") {
        if (P == "()") { put(self, ConC()); return M_RET; }
        if (P == "(std::map<STR, json::value>&&)") {
            ConC c = moveContent(s, a[1], V_MAP, self);
            put(a[1], ConC());
            put(self, c);
            return M_RET;
        }
        if (!explicitElems) throw Unmodelled { D };
        if (P == "(std::map<STR, json::value> const&)") {
            con(a[1]);
            if (mayFail(s, "a copy")) return thr("_ZTISt9bad_alloc");
            put(self, copyContent(s, a[1], V_MAP, self));
            return M_RET;
        }
        if (cb.arg_size() >= 3 && a[1].k == V_PTR && a[2].k == V_PTR && !starts(P, "(std::initializer")) {
            if (mayFail(s, "a copy")) return thr("_ZTISt9bad_alloc");
            put(self, ConC());
            Range r = rangeOf(*this, s, a[1], a[2], 32 + lay.size);
            if (!r.ok || (r.owner.k == V_PTR && r.k != V_MAP)) throw Unmodelled { D };
            if (r.owner.k == V_PTR) { put(self, copyContent(s, r.owner, V_MAP, self)); return M_RET; }
            for (auto& p : r.each) {
                int n = s.newObj(32 + lay.size, 1);
                cellPut(*s.obj(n), 0, 32, mkStr(strAt(s, p)));
                Val q = p, it;
                q.b += 32;
                copyValue(s, q, n, 32);
                putMember(n, false, it);
            }
            return M_RET;
        }
        throw Unmodelled { D };
    }
    if (B == "~map") { con(self); cellClear(objRef(s, self, true, "destroy"), (int)self.b, 48); return M_RET; }
    if (B == "emplace" || B == "try_emplace" || B == "insert_or_assign") {
        std::string p = P.substr(1, P.size() - 2);
        size_t k = p.find(", ");
        std::string t1 = k == std::string::npos ? p : p.substr(0, k), t2 = k == std::string::npos ? "" : p.substr(k + 2);
        Frame& fr = s.top();
        bool mv = t2 == "json::value&&";
        bool simple = (t1 == "STR&&" || t1 == "STR const&" || t1 == "STR&") && (mv || t2 == "json::value const&" || t2 == "json::value&");
        if (!simple && !explicitElems) throw Unmodelled { D };
        if (fr.stage == 0) {
            if (explicitElems && mayFail(s, "an insertion")) return thr("_ZTISt9bad_alloc");
            int slot = s.newObj(explicitElems ? 32 + lay.size : lay.size, 1);
            Val at = mkPtr(P_OBJ, slot, explicitElems ? 32 : 0);
            Function* ctor = simple ? M.getFunction(mv ? "_ZN4json5valueC2EOS0_" : "_ZN4json5valueC2ERKS0_") : constructOf(f);
            if (!ctor || ctor->isDeclaration()) throw Unmodelled { "element constructor of " + D };
            std::vector<Val> args;
            if (simple) args = { at, a[2] };
            else {
                args = { mkPtr(P_TOP, 0), mkPtr(P_OBJ, slot, 0) };
                if (ctor->arg_size() == a.size() + 1) for (size_t i = 1; i < a.size(); i++) args.push_back(a[i]);
                else if (ctor->arg_size() == 5 && a.size() == 3) {
                    // piecewise: the arguments as tuples of references
                    args.push_back(mkPtr(P_TOP, 0));
                    for (size_t i = 1; i < 3; i++) { int t = s.newObj(8, 1); cellPut(*s.obj(t), 0, 8, a[i]); args.push_back(mkPtr(P_OBJ, t, 0)); }
                }
                else throw Unmodelled { "element constructor of " + D };
            }
            Frame& g = s.top();
            g.stage = 1;
            g.tmp = { mkPtr(P_OBJ, slot, 0) };
            pushFrame(s, info(ctor), args);
            return M_AGAIN;
        }
        Val slot = fr.tmp[0];
        if (explicitElems) {
            if (simple) {
                StrC key = strAt(s, a[1]);
                cellPut(*s.obj((int)slot.a), 0, 32, mkStr(key));
                if (t1 == "STR&&") putStr(s, a[1], nothing);
            }
            Val it;
            bool ins = putMember((int)slot.a, B == "insert_or_assign", it);
            if (!ins && B == "try_emplace" && mv) throw Unmodelled { "try_emplace for a member that is there" };
            ret = mkAgg({ it, it.isPtr(P_TOP) && maybe ? mkTop(8) : mkInt(8, ins) });
            return M_RET;
        }
        StrC key = strAt(s, a[1]);
        ConC c = con(self);
        bool ins = true;
        if (!elemPush(s, c, slot, &key)) ins = spec->mapEmplace(s, c, key, slot);
        if (!ins && B == "insert_or_assign") { c = ConC(); c.k = C_ANY; c.text = "a member replaced"; }
        put(self, c);
        if (t1 == "STR&&") putStr(s, a[1], nothing);
        ret = mkAgg({ mkPtr(P_TOP, 0), mkInt(8, ins) });
        return M_RET;
    }
    if (B == "empty") { con(self); settle(s, self, V_MAP); ret = mkInt(1, isEmptyCon(s, con(self))); return M_RET; }
    if (B == "begin" || B == "cbegin") { ret = elemBegin(s, self, V_MAP); return M_RET; }
    if (B == "end" || B == "cend") { ret = elemEnd(s, self, V_MAP); return M_RET; }
    if (B == "size") {
        ConC c = con(self);
        if (explicitElems) { settle(s, self, V_MAP); c = con(self); }
        if (c.k == C_EMPTY) { ret = mkInt(64, 0); return M_RET; }
        ret.k = V_CNT;
        ret.w = 64;
        ret.p = std::make_shared<ConC>(c);
        return M_RET;
    }
    if (B == "clear") { con(self); dropElements(s, self, 0); put(self, ConC()); return M_RET; }
    if (B == "operator=" && P == "(std::map<STR, json::value>&&)") {
        ret = self;
        con(self);
        if (self.a == a[1].a && self.b == a[1].b) { put(self, ConC()); return M_RET; }
        if (goesWith(s, self, a[1], 0)) throw Bug { "lifetime", "an object is assigned a part of itself, which is destroyed with the old members" };
        ConC c = moveContent(s, a[1], V_MAP, mkPtr(P_OBJ, -3, 0));
        put(a[1], ConC());
        dropElements(s, self, 0);
        rehome(s, -3, 0, self);
        put(self, c);
        return M_RET;
    }
    if (!explicitElems) throw Unmodelled { D };
    if (B == "operator=" && P == "(std::map<STR, json::value> const&)") {
        ret = self;
        con(self);
        con(a[1]);
        if (self.a == a[1].a && self.b == a[1].b) return M_RET;
        if (goesWith(s, self, a[1], 0)) throw Bug { "lifetime", "an object is assigned a part of itself, which is destroyed with the old members" };
        if (mayFail(s, "a copy")) { put(self, anyCon("a failed assignment")); return thr("_ZTISt9bad_alloc"); }
        ConC c = copyContent(s, a[1], V_MAP, mkPtr(P_OBJ, -3, 0));
        dropElements(s, self, 0);
        rehome(s, -3, 0, self);
        put(self, c);
        return M_RET;
    }
    if (B == "find" || B == "count" || B == "contains" || B == "at" || B == "operator[]") {
        std::string p = P.substr(1, P.rfind(')') - 1);
        if (p != "STR const&" && p != "STR&&") throw Unmodelled { D };
        if (B == "operator[]") {
            StrC key = strAt(s, a[1]);
            Val e = mapFind(s, self, key);
            if (!elemIsEnd(s, (int)e.a)) { ret = ptrAdd(s, e, 32); return M_RET; }
            Frame& fr = s.top();
            if (fr.stage == 0) {
                if (mayFail(s, "an insertion")) return thr("_ZTISt9bad_alloc");
                Function* ctor = M.getFunction("_ZN4json5valueC2Ev");
                if (!ctor || ctor->isDeclaration()) throw Unmodelled { "default constructor of a value" };
                int slot = s.newObj(32 + lay.size, 1);
                Frame& g = s.top();
                g.stage = 1;
                g.tmp = { mkPtr(P_OBJ, slot, 0) };
                pushFrame(s, info(ctor), { mkPtr(P_OBJ, slot, 32) });
                return M_AGAIN;
            }
            Val slot = fr.tmp[0];
            cellPut(*s.obj((int)slot.a), 0, 32, mkStr(key));
            if (p == "STR&&") putStr(s, a[1], nothing);
            ConC c = con(self);
            appendElem(s, self, V_MAP, c, (int)slot.a);
            put(self, c);
            ret = mkPtr(P_OBJ, slot.a, 32);
            return M_RET;
        }
        StrC key = strAt(s, a[1]);
        Val e = mapFind(s, self, key);
        if (B == "find") { ret = e; return M_RET; }
        bool end = elemIsEnd(s, (int)e.a);
        if (B == "at") { if (end) return thr("_ZTISt12out_of_range"); ret = ptrAdd(s, e, 32); return M_RET; }
        ret = mkInt(B == "count" ? 64 : 1, !end);
        return M_RET;
    }
    if (B == "erase" || B == "insert" || B == "merge" || B == "extract") {
        con(self);
        if (B == "erase" && cb.arg_size() == 2 && has(P, "STR const&")) {
            Val e = mapFind(s, self, strAt(s, a[1]));
            ret = mkInt(64, elemIsEnd(s, (int)e.a) ? 0 : 1);
            if (!ret.a) return M_RET;
        }
        else if (B == "erase" && a[1].isPtr(P_OBJ) && cb.arg_size() == 2) {
            if (elemIsEnd(s, (int)a[1].a)) throw Bug { "bounds", "erases a member that is not there" };
            ret = mkPtr(P_TOP, 0);
        }
        else if (B == "insert" && cb.arg_size() == 3 && a[1].k == V_PTR && a[2].k == V_PTR) {
            Range r = rangeOf(*this, s, a[1], a[2], 32 + lay.size);
            ConC c = con(self);
            if (r.ok && r.owner.k == V_PTR && r.k == V_MAP && (c.k == C_EMPTY || (c.k == C_SEQ && !c.part))) {
                ConC add = copyContent(s, r.owner, V_MAP, self);
                if (c.k != C_EMPTY && add.k == C_SEQ) for (auto& g : add.segs) if (g.how != "elem") g.how = "under";
                appendContent(c, add);
                put(self, c);
                return M_RET;
            }
        }
        else if (B == "merge" && a.size() == 2 && a[1].isPtr(P_OBJ)) {
            // the members whose names are not there yet
            ConC c = con(self), add = copyContent(s, a[1], V_MAP, self);
            if ((c.k == C_EMPTY || (c.k == C_SEQ && !c.part)) && add.k == C_SEQ) {
                if (c.k != C_EMPTY) for (auto& g : add.segs) if (g.how != "elem") g.how = "under";
                appendContent(c, add);
                put(self, c);
                put(a[1], anyCon("members that were not merged"));
                return M_RET;
            }
        }
        else ret = mkTop(64);
        put(self, anyCon("edited members"));
        return M_RET;
    }
    if (B == "swap") {
        ConC x = moveContent(s, self, V_MAP, mkPtr(P_OBJ, -3, 0)), y = moveContent(s, a[1], V_MAP, self);
        rehome(s, -3, 0, a[1]);
        put(self, y);
        put(a[1], x);
        return M_RET;
    }
    throw Unmodelled { D };
}

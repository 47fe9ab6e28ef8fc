// The abstract interpreter: instruction semantics and the fixpoint iteration.
#include "interp.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Demangle/Demangle.h"
#include <chrono>
using namespace llvm;

static long residentMB()
{
    long size = 0, res = 0;
    if (FILE* f = fopen("/proc/self/statm", "r")) {
        if (fscanf(f, "%ld %ld", &size, &res) != 2) res = 0;
        fclose(f);
    }
    return res / 256;
}
static double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void replaceAll(std::string& s, const std::string& a, const std::string& b)
{
    for (size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b);
}
std::string demangleNorm(const std::string& in)
{
    std::string s = in;
    replaceAll(s, "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "STR");
    replaceAll(s, "std::basic_string_view<char, std::char_traits<char>>", "SV");
    replaceAll(s, "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "STR");
    replaceAll(s, "std::basic_string_view<char, std::char_traits<char> >", "SV");
    replaceAll(s, ", std::allocator<json::value>", "");
    replaceAll(s, ", std::less<STR>, std::allocator<std::pair<STR const, json::value>>", "");
    replaceAll(s, "std::allocator<std::pair<STR const, json::value>>", "MALLOC");
    return s;
}

Interp::Interp(Module& m, Spec* sp) : M(m), DL(m.getDataLayout()), spec(sp)
{
    if (sp) sp->I = this;
    for (auto& g : M.globals()) { globIds[&g] = (int)globs.size(); globs.push_back(&g); }
    for (auto& f : M) { funcIds[&f] = (int)funcs.size(); funcs.push_back(&f); }
    findLayout();
}

FnInfo* Interp::info(const Function* f)
{
    auto& p = fns[f];
    if (p) return p;
    p = new FnInfo;
    p->F = const_cast<Function*>(f);
    ItaniumPartialDemangler d;
    std::string name = f->getName().str();
    if (!d.partialDemangle(name.c_str()) && d.isFunction()) {
        auto get = [&](char* c) { std::string r = c ? demangleNorm(c) : ""; free(c); return r; };
        size_t n = 0;
        p->dem = get(d.finishDemangle(nullptr, &n));
        p->cls = get(d.getFunctionDeclContextName(nullptr, nullptr));
        p->base = get(d.getFunctionBaseName(nullptr, nullptr));
        p->params = get(d.getFunctionParameters(nullptr, nullptr));
    }
    else {
        p->dem = demangleNorm(demangle(name));
        p->base = p->dem;
    }
    p->head = heads.count(f) > 0;
    return p;
}

void Interp::analyse(FnInfo& f)
{
    if (f.analysed) return;
    f.analysed = true;
    f.head = heads.count(f.F) > 0;
    for (auto& a : f.F->args()) f.slot[&a] = f.nslots++;
    for (auto& b : *f.F)
        for (auto& i : b)
            if (!i.getType()->isVoidTy()) f.slot[&i] = f.nslots++;
    int n = 0;
    ReversePostOrderTraversal<Function*> rpot(f.F);
    for (auto* b : rpot) f.rpo[b] = n++;
    // liveness
    DenseMap<const BasicBlock*, BitVector> liveOut;
    for (auto& b : *f.F) { f.liveIn[&b] = BitVector(f.nslots); liveOut[&b] = BitVector(f.nslots); }
    bool ch = true;
    auto walk = [&](BasicBlock& b, BitVector live, bool rec) {
        for (auto it = b.rbegin(); it != b.rend(); ++it) {
            Instruction& i = *it;
            if (isa<DbgInfoIntrinsic>(i)) continue;
            auto sl = f.slot.find(&i);
            if (rec && isa<CallBase>(i)) {
                BitVector l = live;
                f.liveAfter[&i] = l;
            }
            if (sl != f.slot.end()) live.reset(sl->second);
            if (isa<PHINode>(i)) continue;
            for (auto& o : i.operands()) {
                auto os = f.slot.find(o.get());
                if (os != f.slot.end()) live.set(os->second);
            }
        }
        return live;
    };
    while (ch) {
        ch = false;
        for (auto it = f.F->begin(); it != f.F->end(); ++it) { }
        for (auto bi = rpot.begin(); bi != rpot.end(); ++bi) { }
        std::vector<BasicBlock*> order(rpot.begin(), rpot.end());
        for (auto it = order.rbegin(); it != order.rend(); ++it) {
            BasicBlock& b = **it;
            BitVector out(f.nslots);
            for (auto* sct : successors(&b)) {
                out |= f.liveIn[sct];
                for (auto& ph : sct->phis()) {
                    out.reset(f.slot[&ph]);
                }
                for (auto& ph : sct->phis()) {
                    auto os = f.slot.find(ph.getIncomingValueForBlock(&b));
                    if (os != f.slot.end()) out.set(os->second);
                }
            }
            BitVector in = walk(b, out, false);
            // phi results are live at the start of the block (set on the edge)
            for (auto& ph : b.phis()) in.set(f.slot[&ph]);
            if (in != f.liveIn[&b] || out != liveOut[&b]) { f.liveIn[&b] = in; liveOut[&b] = out; ch = true; }
        }
    }
    for (auto& b : *f.F) walk(b, liveOut[&b], true);
}

// Recursion heads: a smallest set of functions that breaks all cycles of the call graph.
void Interp::findHeads(Function* root)
{
    std::map<Function*, std::set<Function*>> g;
    std::vector<Function*> q { root };
    std::set<Function*> seen { root };
    while (!q.empty()) {
        Function* f = q.back();
        q.pop_back();
        g[f];
        for (auto& b : *f)
            for (auto& i : b)
                if (auto* cb = dyn_cast<CallBase>(&i)) {
                    Function* c = cb->getCalledFunction();
                    if (!c || c->isDeclaration()) continue;
                    FnInfo* fi = info(c);
                    // library functions are modelled, or leaves of the call graph here
                    if (c->getName().starts_with("_ZNSt") || c->getName().starts_with("_ZSt") || c->getName().starts_with("_ZNKSt")) {
                        if (!(fi->dem.find("visit") != std::string::npos)) { }
                    }
                    g[f].insert(c);
                    if (seen.insert(c).second) q.push_back(c);
                }
    }
    auto sccs = [&](const std::set<Function*>& removed) {
        // Tarjan
        std::map<Function*, int> idx, low;
        std::vector<Function*> stk;
        std::set<Function*> on;
        int n = 0;
        std::vector<std::vector<Function*>> out;
        std::function<void(Function*)> dfs = [&](Function* f) {
            idx[f] = low[f] = n++;
            stk.push_back(f);
            on.insert(f);
            bool self = false;
            for (auto* c : g[f]) {
                if (removed.count(c)) continue;
                if (c == f) self = true;
                if (!idx.count(c)) { dfs(c); low[f] = std::min(low[f], low[c]); }
                else if (on.count(c)) low[f] = std::min(low[f], idx[c]);
            }
            if (low[f] == idx[f]) {
                std::vector<Function*> comp;
                while (true) { Function* x = stk.back(); stk.pop_back(); on.erase(x); comp.push_back(x); if (x == f) break; }
                if (comp.size() > 1 || self) out.push_back(comp);
            }
        };
        for (auto& x : g) if (!removed.count(x.first) && !idx.count(x.first)) dfs(x.first);
        return out;
    };
    std::set<Function*> removed;
    for (int guard = 0; guard < 50; guard++) {
        auto cs = sccs(removed);
        // only cycles through json code matter: library destructors of values are modelled
        std::vector<Function*> comp;
        for (auto& c : cs) {
            bool json = false;
            for (auto* f : c) { auto* fi = info(f); if (fi->dem.find("json::parser") != std::string::npos) json = true; }
            if (json) { comp = c; break; }
        }
        if (comp.empty()) break;
        // restrict to json::parser functions, prefer the one that alone breaks the component
        Function* best = nullptr;
        size_t bestLeft = 1e9;
        for (auto* f : comp) {
            if (info(f)->dem.find("json::") == std::string::npos) continue;
            if (info(f)->dem.compare(0, 5, "std::") == 0) continue;
            auto r = removed;
            r.insert(f);
            size_t left = 0;
            for (auto& c : sccs(r)) { bool in = false; for (auto* x : c) if (std::find(comp.begin(), comp.end(), x) != comp.end()) in = true; if (in) left += c.size(); }
            if (left < bestLeft || (left == bestLeft && best && f->getName() < best->getName())) { best = f; bestLeft = left; }
        }
        if (!best) break;
        removed.insert(best);
    }
    for (auto* f : removed) heads.insert(f);
}

// ---------------------------------------------------------------- values
int Interp::widthOf(Type* t) const
{
    if (t->isPointerTy()) return 64;
    return (int)DL.getTypeSizeInBits(t).getFixedValue();
}
Val Interp::constVal(State& s, const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return mkInt((int)ci->getBitWidth(), ci->getZExtValue());
        std::vector<Bit> b;
        for (unsigned i = 0; i < ci->getBitWidth(); i++) b.push_back(BC(ci->getValue()[i]));
        return mkBits(b);
    }
    if (isa<ConstantPointerNull>(c)) return mkNull();
    if (isa<UndefValue>(c)) {
        if (auto* st = dyn_cast<StructType>(c->getType())) {
            std::vector<Val> v;
            for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(constVal(s, UndefValue::get(st->getElementType(i))));
            return mkAgg(v);
        }
        if (c->getType()->isVectorTy()) { Val v; v.k = V_TOP; v.w = (uint16_t)widthOf(c->getType()); return v; }
        Val v;
        v.w = (uint16_t)widthOf(c->getType());
        return v;
    }
    if (auto* gv = dyn_cast<GlobalVariable>(c)) return mkPtr(P_GLOB, globIds[gv], 0);
    if (auto* al = dyn_cast<GlobalAlias>(c)) return constVal(s, al->getAliasee());
    if (auto* f = dyn_cast<Function>(c)) return mkPtr(P_FUNC, funcIds[f]);
    if (auto* z = dyn_cast<ConstantAggregateZero>(c)) {
        if (auto* st = dyn_cast<StructType>(z->getType())) {
            std::vector<Val> v;
            for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(constVal(s, Constant::getNullValue(st->getElementType(i))));
            return mkAgg(v);
        }
        if (z->getType()->isVectorTy()) return mkBits(std::vector<Bit>(widthOf(z->getType()), B0()));
    }
    if (auto* st = dyn_cast<ConstantStruct>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < st->getNumOperands(); i++) v.push_back(constVal(s, st->getOperand(i)));
        return mkAgg(v);
    }
    if (isa<ConstantDataVector>(c) || isa<ConstantVector>(c)) {
        std::vector<Bit> b;
        auto* vt = cast<FixedVectorType>(c->getType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) {
            auto e = bitsOf(constVal(s, c->getAggregateElement(i)));
            b.insert(b.end(), e.begin(), e.end());
        }
        return mkBits(b);
    }
    if (isa<ConstantFP>(c)) return mkTok(widthOf(c->getType()), (i64)cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue(std::min(64u, cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt().getBitWidth()), 0), 77);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            auto* g = cast<GEPOperator>(ce);
            if (g->accumulateConstantOffset(DL, off)) return ptrAdd(s, constVal(s, cast<Constant>(g->getPointerOperand())), off.getSExtValue());
        }
        if (ce->isCast()) return constVal(s, cast<Constant>(ce->getOperand(0)));
    }
    throw Unmodelled { "constant" };
}
Val Interp::eval(State& s, const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
    const Frame& f = s.topc();
    auto it = f.fn->slot.find(v);
    if (it == f.fn->slot.end()) {
        if (isa<MetadataAsValue>(v)) return Val();
        throw Unmodelled { "operand" };
    }
    return f.env[it->second];
}
void Interp::setSlot(State& s, const Value* v, const Val& x)
{
    Frame& f = s.top();
    auto it = f.fn->slot.find(v);
    if (it != f.fn->slot.end()) f.env[it->second] = x;
}

Val Interp::ptrAdd(State& s, const Val& p, i64 off)
{
    if (off == 0) return p;
    Val r = p;
    if (p.k != V_PTR) {
        if (p.k == V_INT || p.k == V_UNDEF) throw Bug { "undefined", "arithmetic on an invalid pointer" };
        throw Unmodelled { "pointer arithmetic" };
    }
    switch (p.pk) {
    case P_NULL: {
        // offset of null: forms an invalid pointer; only its use is wrong
        r.pk = P_TOP;
        r.a = -1;
        return r;
    }
    case P_SD: r.c += off; return r;
    case P_IT: throw Unmodelled { "arithmetic on a map iterator" };
    case P_TOP: return r;
    case P_BUF: {
        r.b += off;
        const Buf* b = s.bufc((int)p.a);
        if (b && !isEndPos(p.b) && !isEndPos(r.b) && (p.b < b->base || r.b < b->base)) {
            if (r.b < 0 && !b->ctx && b->base == 0) throw Bug { "bounds", "forms a position before the start of the input" };
            bool known = false; // within the run since the last state, distances are exact
            if (off > -16 && off < 16) for (auto& o : b->old) if (o.first == r.b) known = true;
            if (!known && p.b >= b->base - 8 && r.b >= b->base) known = true;
            if (!known) throw Unmodelled { "arithmetic on an earlier position of the input" };
        }
        if (b && !isEndPos(r.b)) {
            i64 we = b->base + (i64)b->win.size();
            if (r.b > we + b->rmin && (b->rmax < 0 || r.b <= we + b->rmax)) {
                // is the position within the input?  split on what remains
                if (r.b > we + b->rmin + 64) throw Unmodelled { "a position far ahead" };
                throw SplitRem { (int)p.a, r.b - 1 };
            }
            if (b->rmax >= 0 && r.b > we + b->rmax) throw Bug { "bounds", "forms a position past the end of the input" };
            if (r.b < 0 && !b->ctx) throw Bug { "bounds", "forms a position before the start of the input" };
        }
        if (isEndPos(r.b) && r.b > ENDPOS) throw Bug { "bounds", "forms a position past the end of the input" };
        return r;
    }
    case P_OBJ: {
        const Obj* o = s.objc((int)p.a);
        if (o && (o->kind == 5 || o->kind == 7) && !o->isMap && p.b == 0 && off == o->size) return elemNext(s, (int)p.a);
        if (o && o->kind == 5 && !o->isMap && (p.b + off < 0 || p.b + off >= o->size)) throw Unmodelled { "arithmetic on an iterator" };
        r.b += off;
        return r;
    }
    default: r.b += off; return r;
    }
}
Val Interp::concretize(State& s, const Val& v)
{
    if (v.k == V_INT) return v;
    if (v.k == V_BITS) {
        auto b = bitsOf(v);
        for (auto& x : b) { x = norm(s, x); if (x.t == 3) throw SplitVar { x.var, maskOf(x.mask) }; }
        Val r = mkBits(b);
        return r;
    }
    if (v.k == V_DIFF) {
        const Buf* b = s.bufc((int)v.a);
        if (b) {
            i64 we = b->base + (i64)b->win.size();
            i64 p = v.b, q = v.c;
            if (b->rmax >= 0 && b->rmin == b->rmax) {
                if (isEndPos(p)) p = we + b->rmin + (p - ENDPOS);
                if (isEndPos(q)) q = we + b->rmin + (q - ENDPOS);
            }
            if (p == q) return mkInt(64, v.d);
            if (!isEndPos(p) && !isEndPos(q) && p >= b->base && q >= b->base) return mkInt(64, q - p + v.d);
        }
    }
    return v;
}
Val Interp::ptrAddVar(State& s, const Val& p, const Val& idx0, i64 scale)
{
    Val idx = idx0;
    if (idx.k == V_BITS || idx.k == V_DIFF) idx = concretize(s, idx);
    if (idx.k == V_INT) return ptrAdd(s, p, sext64(idx.a, idx.w) * scale);
    if (idx.k == V_DIFF && p.isPtr(P_BUF) && p.a == idx.a && scale == 1) {
        if (p.b == idx.b) { Val r = p; r.b = idx.c; return ptrAdd(s, r, idx.d); }
        const Buf* u = s.bufc((int)p.a);
        if (u && !isEndPos(p.b) && !isEndPos(idx.b) && p.b >= u->base && idx.b >= u->base) { Val r = p; r.b = idx.c; return ptrAdd(s, r, idx.d + (p.b - idx.b)); }
    }
    if (idx.k == V_IDX && p.isPtr(P_OBJ) && p.b == 0 && scale == lay.size) {
        const Obj *o = s.objc((int)p.a), *n = s.objc((int)idx.a);
        if (o && n && o->kind == 5 && o->first && !o->isMap && n->owner == o->owner && n->ooff == o->ooff && (idx.d == 0 || idx.d == 1)) {
            if (idx.d == 1) return elemNext(s, (int)idx.a);
            return mkPtr(P_OBJ, idx.a, 0);
        }
    }
    if (idx.k == V_SZ && p.isPtr(P_SD) && scale == 1 && p.c == 0) { Val r = p; r.c = ENDPOS + idx.d; return r; }
    if (p.isPtr(P_TOP)) return p;
    const Obj* o = p.isPtr(P_OBJ) ? s.objc((int)p.a) : nullptr;
    if (o && o->kind == 5 && o->first && !o->isMap && o->ghost && p.b == 0 && scale == lay.size && idx.k == V_TOK && idx.b == 7 && idx.c == 0) {
        // the first element and an unknown number of further ones
        Val own = mkPtr(P_OBJ, o->owner, o->ooff);
        int g = o->ghost, r = tokSize(s, g, idx);
        if (r > 0) throw Bug { "bounds", "an iterator goes past the end of its container" };
        return r < 0 ? vecAt(s, own, idx) : elemEnd(s, own, V_VEC);
    }
    throw Unmodelled { "pointer with an unknown offset" };
}

int Interp::byteAt(State& s, int bid, i64 pos)
{
    const Buf* b = s.bufc(bid);
    if (!b) throw Unmodelled { "no such buffer" };
    i64 we = b->base + (i64)b->win.size();
    if (isEndPos(pos)) {
        if (pos >= ENDPOS) throw Bug { "bounds", "reads at or past the end of the input" };
        if (b->rmax < 0 || b->rmin != b->rmax) {
            // END-k: needs the remaining length
            throw Unmodelled { "read relative to the end" };
        }
        pos = we + b->rmin + (pos - ENDPOS);
    }
    if (pos < b->base) {
        for (auto& o : b->old) if (o.first == pos) return o.second;
        if (pos < 0 && !b->ctx) throw Bug { "bounds", "reads before the start of the input" };
        i64 lowest = b->base;
        for (auto& o : b->old) lowest = std::min(lowest, o.first);
        if (pos < lowest && b->base > 0) throw Unmodelled { "read of an earlier byte" };
        return s.newVar(M256::all());
    }
    while (pos >= we) {
        if (b->rmin <= 0) {
            if (b->rmax == 0) throw Bug { "bounds", "reads at or past the end of the input" };
            throw SplitRem { bid, we };
        }
        Buf* m = s.buf(bid);
        int v = s.newVar(M256::all());
        m->win.push_back(v);
        m->rmin--;
        m->known--;
        if (m->rmax > 0) m->rmax--;
        b = m;
        we++;
    }
    return b->win[pos - b->base];
}

int Interp::globalObj(State& s, int g)
{
    for (auto& o : s.objs) if (o.second->kind == 4 && o.second->tag == g) return o.first;
    int id = s.newObj((int)DL.getTypeAllocSize(globs[g]->getValueType()), 4);
    s.obj(id)->tag = g;
    return id;
}
Val Interp::globalRead(State& s, int g, i64 off, int bytes, bool wantPtr)
{
    const GlobalVariable* gv = globs[g];
    if (!gv->isConstant()) {
        for (auto& o : s.objs)
            if (o.second->kind == 4 && o.second->tag == g) {
                Val v = cellGet(*o.second, (int)off, bytes);
                if (v.k != V_UNDEF) return v;
                for (auto& c : o.second->cells)
                    if (c.off < off + bytes && off < c.off + c.size) throw Unmodelled { "mixed access to a global" };
            }
    }
    if (!gv->hasInitializer() && gv->getName() == "__libc_single_threaded") return mkInt(bytes * 8, 0); // counts are atomic then, to the same effect
    if (!gv->hasInitializer()) {
        if (wantPtr) return mkPtr(P_TOP, 0);
        return mkTop(bytes * 8);
    }
    if (off < 0 || off + bytes > (i64)DL.getTypeAllocSize(gv->getValueType())) throw Bug { "undefined", "access outside the table " + demangleNorm(demangle(gv->getName().str())) };
    Type* t = wantPtr ? (Type*)PointerType::get(M.getContext(), 0) : (Type*)Type::getIntNTy(M.getContext(), bytes * 8);
    Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), t, APInt(64, off), DL);
    if (!c) throw Unmodelled { "read of a global" };
    return constVal(s, c);
}

Obj& Interp::objRef(State& s, const Val& p, bool write, const char* what)
{
    if (p.k != V_PTR) {
        if (p.k == V_UNDEF) throw Bug { "undefined", std::string(what) + " through an uninitialised pointer" };
        throw Unmodelled { "not a pointer" };
    }
    if (p.pk == P_NULL) throw Bug { "undefined", std::string(what) + " through a null pointer" };
    if (p.pk == P_GLOB) {
        if (globs[p.a]->isConstant()) throw Unmodelled { "object in constant memory" };
        int id = globalObj(s, (int)p.a);
        Obj& o = *s.obj(id);
        // once it is frozen, static storage is only written while it is initialised under a guard
        if (write && s.tokGet(-6, 0) && !s.tokGet(-7, 0) && !globs[p.a]->isThreadLocal()) throw Bug { "shared", "writes to static storage" };
        if (write) o.written = true;
        return o;
    }
    if (p.pk != P_OBJ) {
        if (p.pk == P_TOP && p.a == -1) throw Bug { "undefined", std::string(what) + " through a null pointer" };
        throw Unmodelled { std::string(what) + " through a pointer of kind " + std::to_string(p.pk) };
    }
    const Obj* oc = s.objc((int)p.a);
    if (!oc) throw Bug { "lifetime", std::string(what) + " of an object that no longer exists" };
    if (oc->dead) throw Bug { "lifetime", std::string(what) + " of an object that no longer exists" };
    if (oc->kind == 5) elemUse(s, (int)p.a);
    if (write && oc->frozen) throw Bug { "shared", "writes to what is only read" };
    Obj& o = *s.obj((int)p.a);
    if (write) o.written = true;
    return o;
}

// ---------------------------------------------------------------- bytes with values in them that have no bits
// an aggregate that starts with the mark and goes on with offset, size, value
static const i64 IMAGE = 0x1a6eb17e;
static bool isImage(const Val& v) { return v.k == V_AGG && !aggOf(v).empty() && aggOf(v)[0].isInt() && aggOf(v)[0].a == IMAGE; }
static bool hasBits(const Val& v) { return v.k == V_INT || v.k == V_BITS || v.k == V_TOP || v.k == V_UNDEF || v.isPtr(P_NULL); }
static std::vector<Cell> cellsOf(const Val& v, int bytes)
{
    std::vector<Cell> r;
    if (isImage(v)) {
        auto& a = aggOf(v);
        for (size_t i = 1; i + 2 < a.size(); i += 3) r.push_back({ (int)a[i].a, (int)a[i + 1].a, a[i + 2] });
        return r;
    }
    if (!hasBits(v)) return { { 0, v.w >= 8 ? std::min(bytes, v.w / 8) : bytes, v } };
    if (v.k == V_UNDEF) return {};
    auto b = v.k == V_PTR ? std::vector<Bit>(bytes * 8, B0()) : bitsOf(v);
    while ((int)b.size() < bytes * 8) b.push_back(B0());
    for (int i = 0; i < bytes; i++) r.push_back({ i, 1, mkBits(std::vector<Bit>(b.begin() + 8 * i, b.begin() + 8 * i + 8)) });
    return r;
}
static Val mkImage(const std::vector<Cell>& cs, int bytes)
{
    if (cs.size() == 1 && cs[0].off == 0 && cs[0].size == bytes) return cs[0].v;
    bool all = true;
    for (auto& c : cs) if (!hasBits(c.v) || c.size != 1) all = false;
    if (all) {
        std::vector<Bit> b(bytes * 8, BT());
        for (auto& c : cs) { auto x = bitsOf(c.v); for (int j = 0; j < 8; j++) b[8 * c.off + j] = x[j]; }
        return mkBits(b);
    }
    std::vector<Val> a { mkInt(64, IMAGE) };
    for (auto& c : cs) { a.push_back(mkInt(32, c.off)); a.push_back(mkInt(32, c.size)); a.push_back(c.v); }
    Val r = mkAgg(a);
    r.w = (uint16_t)(bytes * 8);
    return r;
}
// the bytes from at to at + n of an image; nothing if a value does not fit in
static bool cutImage(const Val& v, int bytes, int at, int n, Val& out)
{
    std::vector<Cell> r;
    for (auto& c : cellsOf(v, bytes)) {
        if (c.off + c.size <= at || c.off >= at + n) continue;
        if (c.off < at || c.off + c.size > at + n) return false;
        r.push_back({ c.off - at, c.size, c.v });
    }
    out = mkImage(r, n);
    return true;
}
static bool imageOp(unsigned op, const Val& a, const Val& b, int w, Val& out)
{
    int n = w / 8;
    if (!isImage(a) && !isImage(b)) return false;
    if (w % 8) return false;
    auto zero = [](const Cell& c) { return c.v.isInt() && c.v.a == 0; };
    if (op == Instruction::Or) {
        auto x = cellsOf(a, n), y = cellsOf(b, n);
        std::vector<Cell> r;
        for (int i = 0; i < n;) {
            const Cell *p = nullptr, *q = nullptr;
            for (auto& c : x) if (c.off <= i && i < c.off + c.size) p = &c;
            for (auto& c : y) if (c.off <= i && i < c.off + c.size) q = &c;
            if (!p || !q) { i++; continue; }
            if (p->size == 1 && zero(*p)) std::swap(p, q);
            if (p->off != i) return false;
            for (int j = i; j < i + p->size; j++) {
                bool z = false;
                for (auto* s : { &x, &y }) if ((s == &x) == (p < x.data() || p >= x.data() + x.size())) for (auto& c : *s) if (c.off <= j && j < c.off + c.size && c.size == 1 && zero(c)) z = true;
                if (!z) return false;
            }
            r.push_back(*p);
            i += p->size;
        }
        out = mkImage(r, n);
        return true;
    }
    if (op == Instruction::And) {
        const Val &x = isImage(a) ? a : b, &m = isImage(a) ? b : a;
        if (!m.isInt() || w > 64) return false;
        std::vector<Cell> r;
        auto byte = [&](int i) { return (u64)m.a >> (8 * i) & 255; };
        for (auto& c : cellsOf(x, n)) {
            bool all = true, none = true;
            for (int i = c.off; i < c.off + c.size; i++) { if (byte(i) != 255) all = false; if (byte(i)) none = false; }
            if (all) r.push_back(c);
            else if (none) for (int i = c.off; i < c.off + c.size; i++) r.push_back({ i, 1, mkInt(8, 0) });
            else return false;
        }
        for (int i = 0; i < n; i++) {
            bool have = false;
            for (auto& c : r) if (c.off <= i && i < c.off + c.size) have = true;
            if (!have && !byte(i)) r.push_back({ i, 1, mkInt(8, 0) });
        }
        std::sort(r.begin(), r.end(), [](const Cell& p, const Cell& q) { return p.off < q.off; });
        out = mkImage(r, n);
        return true;
    }
    if ((op == Instruction::Shl || op == Instruction::LShr) && isImage(a) && b.isInt() && b.a % 8 == 0 && b.a < w) {
        int k = (int)b.a / 8;
        Val part;
        std::vector<Cell> r;
        if (!cutImage(a, n, op == Instruction::Shl ? 0 : k, n - k, part)) return false;
        for (auto& c : cellsOf(part, n - k)) r.push_back({ c.off + (op == Instruction::Shl ? k : 0), c.size, c.v });
        for (int i = 0; i < k; i++) r.push_back({ op == Instruction::Shl ? i : n - k + i, 1, mkInt(8, 0) });
        std::sort(r.begin(), r.end(), [](const Cell& p, const Cell& q) { return p.off < q.off; });
        out = mkImage(r, n);
        return true;
    }
    return false;
}
Val Interp::load(State& s, const Val& p, int bytes, bool wantPtr)
{
    if (p.k == V_PTR && p.pk == P_BUF) {
        std::vector<Bit> out;
        for (int i = 0; i < bytes; i++) {
            int v = byteAt(s, (int)p.a, p.b + i);
            for (int j = 0; j < 8; j++) {
                M256 m;
                for (int c = 0; c < 256; c++) if (c >> j & 1) m.set(c);
                out.push_back(norm(s, { 3, v, internMask(m) }));
            }
        }
        return mkBits(out);
    }
    if (p.k == V_PTR && p.pk == P_GLOB) return globalRead(s, (int)p.a, p.b, bytes, wantPtr);
    if (p.k == V_PTR && p.pk == P_SD) {
        Val base = mkPtr(P_OBJ, p.a, p.b);
        StrC c = strAt(s, base);
        if (bytes == 1 && c.k == S_CONST) {
            i64 i = isEndPos(p.c) ? (i64)c.text.size() + (p.c - ENDPOS) : p.c;
            if (i < 0 || i > (i64)c.text.size()) throw Bug { "undefined", "reads outside a string" };
            return mkInt(8, i == (i64)c.text.size() ? 0 : (unsigned char)c.text[i]);
        }
        if (bytes == 1 && c.k == S_BYTES) {
            i64 n = (i64)c.bytes.size(), i = isEndPos(p.c) ? n + (p.c - ENDPOS) : p.c;
            if (i < 0 || i > n) throw Bug { "undefined", "reads outside a string" };
            return i == n ? mkInt(8, 0) : mkBits(std::vector<Bit>(c.bytes[i].begin(), c.bytes[i].end()));
        }
        if (bytes == 1) {
            if (isEndPos(p.c) && p.c >= ENDPOS) return mkInt(8, 0);
            return mkTop(8);
        }
        throw Unmodelled { "wide read of a string" };
    }
    Obj& o = objRef(s, p, false, "read");
    i64 off = p.b;
    if (off < 0 || off + bytes > o.size) throw Bug { "undefined", "read outside an object" };
    for (auto& c : o.cells) {
        if (c.off == off && c.size == bytes) {
            if (c.v.k == V_STR || c.v.k == V_VEC || c.v.k == V_MAP || c.v.k == V_STREAM) throw Unmodelled { "read of the inside of a library object" };
            return c.v;
        }
        if (c.off < off + bytes && off < c.off + c.size && (c.v.k == V_STR || c.v.k == V_VEC || c.v.k == V_MAP || c.v.k == V_STREAM)) throw Unmodelled { "read of the inside of a library object" };
    }
    // assemble from parts
    std::vector<Bit> bits;
    for (int i = 0; i < bytes; i++) {
        bool found = false;
        for (auto& c : o.cells)
            if (c.off <= off + i && off + i < c.off + c.size) {
                if (c.v.k == V_PTR && c.v.pk == P_NULL) { for (int j = 0; j < 8; j++) bits.push_back(B0()); found = true; break; }
                if (c.v.k == V_PTR || c.v.k == V_AGG || c.v.k == V_DIFF || c.v.k == V_SZ || c.v.k == V_CNT) {
                    if (!explicitElems) throw Unmodelled { "partial read of a pointer" };
                    std::vector<Cell> part;
                    for (auto& x : o.cells) {
                        if (x.off + x.size <= off || x.off >= off + bytes) continue;
                        if (x.off < off || x.off + x.size > off + bytes) throw Unmodelled { "partial read of a pointer" };
                        for (auto y : cellsOf(x.v, x.size)) { y.off += (int)(x.off - off); part.push_back(y); }
                    }
                    return mkImage(part, bytes);
                }
                auto b = bitsOf(c.v);
                while ((int)b.size() < c.size * 8) b.push_back(B0());
                int k = (int)(off + i - c.off);
                bits.insert(bits.end(), b.begin() + 8 * k, b.begin() + 8 * k + 8);
                found = true;
                break;
            }
        if (!found) {
            if (o.kind == 4) {
                Val g = globalRead(s, (int)o.tag, off, bytes, wantPtr);
                return g;
            }
            Val u;
            u.w = (uint16_t)(bytes * 8);
            if (i == 0) { // wholly uninitialised?
                bool any = false;
                for (auto& c : o.cells) if (c.off < off + bytes && off < c.off + c.size) any = true;
                if (!any) return u;
            }
            for (int j = 0; j < 8; j++) bits.push_back(BT());
        }
    }
    return mkBits(bits);
}
Val Interp::loadTy(State& s, const Val& p, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        std::vector<Val> v;
        auto* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadTy(s, ptrAdd(s, p, (i64)sl->getElementOffset(i)), st->getElementType(i)));
        return mkAgg(v);
    }
    int bytes = (int)DL.getTypeStoreSize(t).getFixedValue();
    Val v = load(s, p, bytes, t->isPointerTy());
    if (t->isPointerTy()) {
        if (v.k == V_INT && v.a == 0) return mkNull();
        if (v.k == V_INT) return mkPtr(P_TOP, v.a);
        return v;
    }
    int w = widthOf(t);
    if (w < bytes * 8 && (v.k == V_INT || v.k == V_BITS)) {
        auto b = bitsOf(v);
        b.resize(w);
        return mkBits(b);
    }
    if (v.k == V_TOP || v.k == V_TOK || v.k == V_UNDEF) v.w = (uint16_t)w;
    if (v.k == V_PTR && v.pk == P_NULL) return mkInt(w, 0);
    return v;
}
void Interp::store(State& s, const Val& p, const Val& v, int bytes)
{
    if (p.k == V_PTR && p.pk == P_BUF) throw Bug { "bounds", "writes to the input" };
    if (p.k == V_PTR && p.pk == P_GLOB && globs[p.a]->isConstant()) throw Bug { "undefined", "writes to constant memory" };
    if (p.k == V_PTR && p.pk == P_SD) {
        // a character of a string is replaced
        StrC c = strAt(s, mkPtr(P_OBJ, p.a, p.b));
        if (bytes == 1 && c.k == S_CONST && v.k == V_INT && !isEndPos(p.c) && p.c < (i64)c.text.size()) { c.text[p.c] = (char)v.a; putStr(s, mkPtr(P_OBJ, p.a, p.b), c); return; }
        putStr(s, mkPtr(P_OBJ, p.a, p.b), strC(mkStrAny("modified in place")));
        return;
    }
    Obj& o = objRef(s, p, true, "write");
    if (p.b < 0 || p.b + bytes > o.size) throw Bug { "undefined", "write outside an object" };
    Val x = v;
    if ((v.k == V_INT || v.k == V_BITS) && v.w != bytes * 8 && v.w < bytes * 8) {
        auto b = bitsOf(v);
        while ((int)b.size() < bytes * 8) b.push_back(B0());
        x = mkBits(b);
    }
    if (isImage(x)) {
        cellClear(o, (int)p.b, bytes);
        for (auto& c : cellsOf(x, bytes)) cellPut(o, (int)p.b + c.off, c.size, c.v);
        return;
    }
    cellPut(o, (int)p.b, bytes, x);
}
void Interp::storeTy(State& s, const Val& p, const Val& v, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL.getStructLayout(st);
        if (v.k != V_AGG) throw Unmodelled { "store of an aggregate" };
        for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, ptrAdd(s, p, (i64)sl->getElementOffset(i)), aggOf(v)[i], st->getElementType(i));
        return;
    }
    store(s, p, v, (int)DL.getTypeStoreSize(t).getFixedValue());
}
void Interp::copyMem(State& s, const Val& d, const Val& src, i64 n)
{
    if (n == 0) return;
    if (src.k == V_PTR && (src.pk == P_BUF || src.pk == P_GLOB || src.pk == P_SD)) {
        if (src.pk == P_GLOB && n > 64) {
            // aggregate copy from constant memory, by words where possible
            for (i64 i = 0; i + 8 <= n; i += 8) {
                Val v;
                v = globalRead(s, (int)src.a, src.b + i, 8, true);
                store(s, ptrAdd(s, d, i), v, 8);
            }
            for (i64 i = n / 8 * 8; i < n; i++) store(s, ptrAdd(s, d, i), load(s, ptrAdd(s, src, i), 1, false), 1);
            return;
        }
        if (src.pk == P_GLOB && n % 8 == 0) {
            for (i64 i = 0; i < n; i += 8) {
                Val v;
                const GlobalVariable* gv = globs[src.a];
                Type* t = PointerType::get(M.getContext(), 0);
                Constant* c = gv->hasInitializer() && gv->isConstant() ? ConstantFoldLoadFromConst(const_cast<Constant*>(gv->getInitializer()), t, APInt(64, src.b + i), DL) : nullptr;
                if (c && !isa<ConstantExpr>(c)) v = constVal(s, c);
                else v = load(s, ptrAdd(s, src, i), 8, false);
                store(s, ptrAdd(s, d, i), v, 8);
            }
            return;
        }
        if (src.pk == P_BUF && n > 1) {
            store(s, d, load(s, src, (int)n, false), (int)n);
            return;
        }
        for (i64 i = 0; i < n; i++) store(s, ptrAdd(s, d, i), load(s, ptrAdd(s, src, i), 1, false), 1);
        return;
    }
    Obj o = objRef(s, src, false, "read");
    if (src.b < 0 || src.b + n > o.size) throw Bug { "undefined", "read outside an object" };
    Obj& t = objRef(s, d, true, "write");
    if (d.b < 0 || d.b + n > t.size) throw Bug { "undefined", "write outside an object" };
    cellClear(t, (int)d.b, (int)n);
    for (auto& c : o.cells) {
        if (c.off + c.size <= src.b || c.off >= src.b + n) continue;
        if (c.v.k == V_STR || c.v.k == V_VEC || c.v.k == V_MAP || c.v.k == V_STREAM) throw Unmodelled { "bytewise copy of a library object" };
        if (c.off < src.b || c.off + c.size > src.b + n) {
            for (int i = 0; i < c.size; i++) {
                i64 a = c.off + i;
                if (a < src.b || a >= src.b + n) continue;
                cellPut(t, (int)(a - src.b + d.b), 1, load(s, mkPtr(P_OBJ, src.a, a), 1, false));
            }
            continue;
        }
        cellPut(t, (int)(c.off - src.b + d.b), c.size, c.v);
    }
}

// ---------------------------------------------------------------- bit operations
Bit Interp::bitNot(Bit a)
{
    if (a.t == 0) return B1();
    if (a.t == 1) return B0();
    if (a.t == 2) return a;
    return { 3, a.var, internMask(~maskOf(a.mask)) };
}
Bit Interp::bitAnd(State& s, Bit a, Bit b)
{
    if (a.t == 0 || b.t == 0) return B0();
    if (a.t == 1) return b;
    if (b.t == 1) return a;
    if (a == b) return a;
    if (a.t == 2 || b.t == 2) return BT();
    if (a.var == b.var) return norm(s, { 3, a.var, internMask(maskOf(a.mask) & maskOf(b.mask)) });
    a = norm(s, a);
    b = norm(s, b);
    if (a.t != 3 || b.t != 3) return bitAnd(s, a, b);
    throw SplitVar { a.var, maskOf(a.mask) };
}
Bit Interp::bitOr(State& s, Bit a, Bit b) { return bitNot(bitAnd(s, bitNot(a), bitNot(b))); }
Bit Interp::bitXor(State& s, Bit a, Bit b)
{
    if (a.t == 0) return b;
    if (b.t == 0) return a;
    if (a.t == 1) return bitNot(b);
    if (b.t == 1) return bitNot(a);
    if (a.t == 2 || b.t == 2) return BT();
    if (a.var == b.var) return norm(s, { 3, a.var, internMask(maskOf(a.mask) ^ maskOf(b.mask)) });
    a = norm(s, a);
    b = norm(s, b);
    if (a.t != 3 || b.t != 3) return bitXor(s, a, b);
    throw SplitVar { a.var, maskOf(a.mask) };
}
// If the operands depend on one byte only: compute the operation for each value of it.
bool Interp::pointwise(State& s, const Val& a, const Val& b, int wout, const std::function<u64(u64, u64)>& f, Val& out)
{
    if (a.w > 64 || b.w > 64 || wout > 64) return false;
    if (!(a.k == V_INT || a.k == V_BITS) || !(b.k == V_INT || b.k == V_BITS)) return false;
    if (a.k == V_INT && b.k == V_INT) { out = mkInt(wout, f(a.a, b.a)); return true; }
    auto x = bitsOf(a), y = bitsOf(b);
    int var = -1;
    for (auto* v : { &x, &y })
        for (auto& t : *v) {
            t = norm(s, t);
            if (t.t == 2) return false;
            if (t.t == 3) { if (var == -1) var = t.var; else if (var != t.var) return false; }
        }
    if (var == -1) { out = mkInt(wout, f(mkBits(x).a, mkBits(y).a)); return true; }
    M256 set = s.setOf(var);
    std::vector<M256> m(wout);
    for (int c = 0; c < 256; c++) {
        if (!set.test(c)) continue;
        u64 p = 0, q = 0;
        for (size_t i = 0; i < x.size(); i++) if (x[i].t == 1 || (x[i].t == 3 && maskOf(x[i].mask).test(c))) p |= 1ull << i;
        for (size_t i = 0; i < y.size(); i++) if (y[i].t == 1 || (y[i].t == 3 && maskOf(y[i].mask).test(c))) q |= 1ull << i;
        u64 r = f(p, q);
        for (int i = 0; i < wout; i++) if (r >> i & 1) m[i].set(c);
    }
    std::vector<Bit> o(wout);
    for (int i = 0; i < wout; i++) o[i] = m[i].none() ? B0() : m[i] == set ? B1() : Bit { 3, var, internMask(m[i]) };
    out = mkBits(o);
    return true;
}

// an unknown number compared with a constant: what has been decided about it is remembered as an interval (tokens -(1000 + 2 id) and the one below)
Val Interp::numberCompare(State& s, unsigned p, const Val& a, const Val& b)
{
    auto pred = (CmpInst::Predicate)p;
    auto B = [](bool x) { return mkInt(1, x); };
    i64 k = b.a - a.c, lowKey = -(1000 + 2 * a.a), highKey = lowKey - 1;
    const i64 MAX = 1ll << 62;
    if (CmpInst::isSigned(pred)) return mkTop(1);
    if ((b.a < 0 || b.a >= MAX) && s.tokGet(highKey, MAX) < MAX / 2 && std::abs(a.c) < 1000 && (a.c >= 0 || s.tokGet(lowKey, 0) >= -a.c)) return B(pred == CmpInst::ICMP_NE || pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE); // far below
    if (b.a < 0 || b.a >= MAX) return mkTop(1);
    i64 lo = s.tokGet(lowKey, 0), hi = s.tokGet(highKey, MAX);
    auto below = [&](i64 n) { // is it below n?
        i64 l = s.tokGet(lowKey, 0), h = s.tokGet(highKey, MAX);
        if (h < n) return true;
        if (l >= n) return false;
        if (choose(s, 2, "the number is below " + std::to_string(n))) { s.tokSet(highKey, n - 1); return true; }
        s.tokSet(lowKey, n);
        return false;
    };
    switch (pred) {
    case CmpInst::ICMP_ULT: return B(below(k));
    case CmpInst::ICMP_UGE: return B(!below(k));
    case CmpInst::ICMP_ULE: return B(below(k + 1));
    case CmpInst::ICMP_UGT: return B(!below(k + 1));
    case CmpInst::ICMP_EQ:
    case CmpInst::ICMP_NE:
        if (k < lo || k > hi) return B(pred == CmpInst::ICMP_NE);
        return B((!below(k) && below(k + 1)) == (pred == CmpInst::ICMP_EQ));
    default: return mkTop(1);
    }
}
Val Interp::binop(State& s, unsigned op, const Val& a0, const Val& b0, int w)
{
    Val a = a0, b = b0;
    if (a.k == V_DIFF) a = concretize(s, a);
    if (b.k == V_DIFF) b = concretize(s, b);
    { Val r; if (imageOp(op, a, b, w, r)) return r; }
    auto isS = [](const Val& v) { return v.k == V_INT || v.k == V_BITS || v.k == V_TOP || v.k == V_UNDEF || v.k == V_TOK; };
    // pointers and differences of positions
    if (op == Instruction::Sub && a.k == V_PTR && b.k == V_PTR) {
        if (a.pk == b.pk && a.a == b.a) {
            if (a.pk == P_BUF) return concretize(s, mkDiff((int)a.a, b.b, a.b));
            if (a.pk == P_OBJ || a.pk == P_GLOB) return mkInt(64, a.b - b.b);
            if (a.pk == P_NULL) return mkInt(64, 0);
            if (a.pk == P_SD && a.b == b.b) {
                if (isEndPos(a.c) == isEndPos(b.c)) return mkInt(64, a.c - b.c);
                if (isEndPos(a.c)) {
                    Val v;
                    v.k = V_SZ;
                    v.w = 64;
                    StrC c = strAt(s, mkPtr(P_OBJ, a.a, a.b));
                    if (c.k == S_CONST || c.k == S_BYTES) return mkInt(64, (i64)(c.text.size() * (c.k == S_CONST) + c.bytes.size()) + (a.c - ENDPOS) - b.c);
                    v.p = std::make_shared<StrC>(c);
                    v.d = a.c - ENDPOS - b.c;
                    return v;
                }
            }
        }
        return mkTop(64);
    }
    if (op == Instruction::Sub && a.k == V_DIFF && b.k == V_DIFF && a.a == b.a && a.b == b.b) {
        if (b.d || (a.d && isEndPos(a.c))) return mkTop(64);
        return concretize(s, mkDiff((int)a.a, b.c, a.c, a.d));
    }
    if ((op == Instruction::Add || op == Instruction::Sub) && a.k == V_DIFF && b.isInt() && indexPhis && !isEndPos(a.c) && !a.d && a.c > a.b) {
        const Buf* u = s.bufc((int)a.a);
        i64 to = a.c + (op == Instruction::Add ? 1 : -1) * sext64(b.a, b.w);
        if (u && a.c >= u->base && to >= u->base && to <= u->base + (i64)u->win.size() + u->rmin) { a.c = to; return a; }
    }
    if ((op == Instruction::Add || op == Instruction::Sub) && a.k == V_DIFF && b.isInt()) { a.d += (op == Instruction::Add ? 1 : -1) * sext64(b.a, b.w); return a; }
    if (op == Instruction::Add && b.k == V_DIFF && a.isInt()) { b.d += sext64(a.a, a.w); return b; }
    if (op == Instruction::Add && b.k == V_IDX && a.isInt()) std::swap(a, b);
    if ((op == Instruction::Add || op == Instruction::Sub) && a.k == V_IDX && b.isInt() && (b.a == 1 || b.a == -1)) {
        i64 by = (op == Instruction::Add ? 1 : -1) * b.a;
        if (by < 0 || a.d < 0) a.d += by;
        else if (a.d == 0 && !elemIsEnd(s, (int)a.a)) a.a = elemNext(s, (int)a.a).a;
        else a.d += by;
        return a;
    }
    if (op == Instruction::Add && b.k == V_TOK && b.b == 8 && a.isInt()) std::swap(a, b);
    if ((op == Instruction::Add || op == Instruction::Sub) && a.k == V_TOK && a.b == 8 && b.isInt() && w == 64 && std::abs(sext64(b.a, 64)) < 1000) { a.c += (op == Instruction::Add ? 1 : -1) * sext64(b.a, 64); return a; }
    if (explicitElems && op == Instruction::Add && a.k == V_TOK && a.b == 7 && a.c == 0 && b.isInt() && b.a == 1) {
        int e0 = 0, big = -1;
        for (auto& o : s.objs) {
            if (o.second->kind != 2 && o.second->kind != 6) continue;
            if (!e0) e0 = o.first;
            if (fact(s, o.first, 400 + (int)a.a, 0) >= 1) big = 0;
        }
        if (!e0) return mkTop(w);
        if (big < 0) big = decide(s, e0, 700 + (int)a.a, 2, "the index is the largest number there is");
        if (big) return mkInt(64, 0);
        a.c = 1;
        return a;
    }
    if (explicitElems && op == Instruction::Sub && a.k == V_TOK && a.b == 7 && a.c == 1 && b.isInt() && b.a == 1) { a.c = 0; return a; }
    if (explicitElems && op == Instruction::Add && b.k == V_CNT && a.isInt()) std::swap(a, b);
    if (explicitElems && (op == Instruction::Add || op == Instruction::Sub) && a.k == V_CNT && b.isInt() && conC(a).k == C_SEQ && !conC(a).part) {
        i64 off = a.a + (op == Instruction::Add ? 1 : -1) * sext64(b.a, b.w), n = 0, g = 0, ng = 0;
        for (auto& x : conC(a).segs) if (x.how == "elem") n++; else { ng++; g = x.id; }
        if (!ng) return mkInt(64, (u64)(n + off));
        if (ng == 1 && off > -16 && off < 1000) {
            // below 0 the difference wraps
            for (i64 k = 0; k + n + off < 0; k++) if (sizeIs(s, (int)g, CmpInst::ICMP_EQ, k)) return mkInt(64, (u64)(k + n + off));
            a.a = off;
            return a;
        }
    }
    if ((op == Instruction::Add || op == Instruction::Sub) && a.k == V_SZ && b.isInt()) { a.d += (op == Instruction::Add ? 1 : -1) * sext64(b.a, b.w); return a; }
    if (op == Instruction::Sub && a.k == V_SZ && b.k == V_SZ && strC(a).same(strC(b))) return mkInt(64, a.d - b.d);
    if ((op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::Mul) && b.isInt() && b.a == 1) return a;
    if (op == Instruction::Sub && a.k == V_INT && a.a == 0 && (b.k == V_DIFF)) return mkDiff((int)b.a, b.c, b.b, -b.d);
    if (op == Instruction::Add && a.k == V_PTR && isS(b)) return ptrAddVar(s, a, b, 1);
    if (!isS(a) || !isS(b)) return mkTop(w);
    if (a.k == V_UNDEF || b.k == V_UNDEF) {
        if ((op == Instruction::And) && ((a.isInt() && a.a == 0) || (b.isInt() && b.a == 0))) return mkInt(w, 0);
        Val u;
        u.w = (uint16_t)w;
        if (a.k == V_UNDEF && b.k == V_UNDEF) return u;
        a.k == V_UNDEF ? (a = mkTop(w)) : (b = mkTop(w));
    }
    if (a.k == V_TOK || b.k == V_TOK) {
        if (a.k == V_TOK && op == Instruction::Xor && w == 1 && b.isInt()) { if (b.a & 1) { a.c ^= 1; } return a; }
        if (b.k == V_TOK && op == Instruction::Xor && w == 1 && a.isInt()) { if (a.a & 1) { b.c ^= 1; } return b; }
        if (op == Instruction::And && w == 1) { if (a.isInt()) return a.a ? b : a; if (b.isInt()) return b.a ? a : b; }
        if (op == Instruction::Or && w == 1) { if (a.isInt()) return a.a ? a : b; if (b.isInt()) return b.a ? b : a; }
        if (op == Instruction::And && a.k == V_TOK && b.isInt() && (u64)b.a == trunc64(~0ull, w)) return a;
        return mkTop(w);
    }
    if (w <= 64 && (a.k == V_INT || a.k == V_BITS) && (b.k == V_INT || b.k == V_BITS)) {
        Val out;
        bool done = false;
        auto pw = [&](auto f) { done = pointwise(s, a, b, w, f, out); };
        bool div0 = false;
        switch (op) {
        case Instruction::Add: pw([](u64 x, u64 y) { return x + y; }); break;
        case Instruction::Sub: pw([](u64 x, u64 y) { return x - y; }); break;
        case Instruction::Mul: pw([](u64 x, u64 y) { return x * y; }); break;
        case Instruction::And: pw([](u64 x, u64 y) { return x & y; }); break;
        case Instruction::Or: pw([](u64 x, u64 y) { return x | y; }); break;
        case Instruction::Xor: pw([](u64 x, u64 y) { return x ^ y; }); break;
        case Instruction::Shl: pw([&](u64 x, u64 y) { return y >= (u64)w ? 0 : x << y; }); break;
        case Instruction::LShr: pw([&](u64 x, u64 y) { return y >= (u64)w ? 0 : trunc64(x, w) >> y; }); break;
        case Instruction::AShr: pw([&](u64 x, u64 y) { return (u64)(sext64(x, w) >> (y >= (u64)w ? 63 : y)); }); break;
        case Instruction::UDiv: pw([&](u64 x, u64 y) { if (!y) { div0 = true; return (u64)0; } return x / y; }); break;
        case Instruction::URem: pw([&](u64 x, u64 y) { if (!y) { div0 = true; return (u64)0; } return x % y; }); break;
        case Instruction::SDiv: pw([&](u64 x, u64 y) { if (!trunc64(y, w)) { div0 = true; return (u64)0; } return (u64)(sext64(x, w) / sext64(y, w)); }); break;
        case Instruction::SRem: pw([&](u64 x, u64 y) { if (!trunc64(y, w)) { div0 = true; return (u64)0; } return (u64)(sext64(x, w) % sext64(y, w)); }); break;
        default: break;
        }
        if (done) {
            if (div0) throw Bug { "undefined", "division by zero" };
            return out;
        }
    }
    auto x = bitsOf(a), y = bitsOf(b);
    x.resize(w, BT());
    y.resize(w, BT());
    for (auto& t : x) t = norm(s, t);
    for (auto& t : y) t = norm(s, t);
    std::vector<Bit> r(w);
    switch (op) {
    case Instruction::And: for (int i = 0; i < w; i++) r[i] = bitAnd(s, x[i], y[i]); return mkBits(r);
    case Instruction::Or: for (int i = 0; i < w; i++) r[i] = bitOr(s, x[i], y[i]); return mkBits(r);
    case Instruction::Xor: for (int i = 0; i < w; i++) r[i] = bitXor(s, x[i], y[i]); return mkBits(r);
    case Instruction::Add:
    case Instruction::Sub: {
        bool sub = op == Instruction::Sub;
        bool swar = false;
        if (w >= 32 && b.k == V_INT) {
            swar = true;
            for (int i = 8; i < w; i += 8) if (((u64)b.a >> i & 255) != ((u64)b.a & 255)) swar = false;
            if (((u64)b.a & 255) == 0) swar = false;
        }
        Bit c = BC(false);
        for (int i = 0; i < w; i++) {
            if (swar && i % 8 == 0 && i) {
                c = norm(s, c);
                // a block scan stops at the first byte that is wanted: what lies behind it does not matter
                if (c.t == 1 && i / 8 - 1 < s.swarStop) s.swarStop = i / 8 - 1;
                if (c.t == 3 && i / 8 - 1 > s.swarStop) c = BT();
                if (c.t == 3) throw SplitVar { c.var, maskOf(c.mask) };
                // (the byte right behind it is still followed, in case the program overlooks that one)
                if (c.t == 2) { for (; i < w; i++) r[i] = BT(); break; }
            }
            Bit xi = x[i], yi = y[i];
            r[i] = bitXor(s, bitXor(s, xi, yi), c);
            // carry: majority(x, y, c);  borrow: majority(~x, y, c)
            Bit z = sub ? bitNot(xi) : xi;
            c = bitOr(s, bitOr(s, bitAnd(s, z, yi), bitAnd(s, z, c)), bitAnd(s, yi, c));
        }
        return mkBits(r);
    }
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr: {
        if (b.k == V_BITS) b = concretize(s, b);
        if (b.k != V_INT) return mkTop(w);
        i64 n = b.a;
        for (int i = 0; i < w; i++) {
            if (op == Instruction::Shl) r[i] = i - n >= 0 ? x[i - n] : B0();
            else r[i] = i + n < w ? x[i + n] : (op == Instruction::AShr ? x[w - 1] : B0());
        }
        return mkBits(r);
    }
    case Instruction::Mul: {
        if (a.k == V_INT) std::swap(a, b), std::swap(x, y);
        if (b.k == V_INT) {
            Val acc = mkInt(w, 0);
            u64 m = (u64)b.a;
            bool first = true;
            for (int i = 0; i < w && i < 64; i++)
                if (m >> i & 1) {
                    Val sh = binop(s, Instruction::Shl, mkBits(x), mkInt(w, i), w);
                    acc = first ? sh : binop(s, Instruction::Add, acc, sh, w);
                    first = false;
                }
            return acc;
        }
        return mkTop(w);
    }
    case Instruction::UDiv:
    case Instruction::URem:
        if (b.k == V_INT && b.a > 0 && ((u64)b.a & ((u64)b.a - 1)) == 0) {
            int n = __builtin_ctzll((u64)b.a);
            if (op == Instruction::UDiv) return binop(s, Instruction::LShr, mkBits(x), mkInt(w, n), w);
            for (int i = 0; i < w; i++) r[i] = i < n ? x[i] : B0();
            return mkBits(r);
        }
        return mkTop(w);
    default: return mkTop(w);
    }
}
Val Interp::binLanes(State& s, unsigned op, const Val& a, const Val& b, int w, int lane)
{
    if (lane == w || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) return binop(s, op, a, b, w);
    auto x = bitsOf(a), y = bitsOf(b);
    std::vector<Bit> r;
    for (int i = 0; i < w; i += lane) {
        Val p = mkBits(std::vector<Bit>(x.begin() + i, x.begin() + i + lane)), q = mkBits(std::vector<Bit>(y.begin() + i, y.begin() + i + lane));
        auto z = bitsOf(binop(s, op, p, q, lane));
        r.insert(r.end(), z.begin(), z.end());
    }
    return mkBits(r);
}
Val Interp::icmpLanes(State& s, unsigned pred, const Val& a, const Val& b, int w, int lane)
{
    if (lane == w) return icmp(s, pred, a, b, w);
    auto x = bitsOf(a), y = bitsOf(b);
    std::vector<Bit> r;
    for (int i = 0; i < w; i += lane) {
        Val p = mkBits(std::vector<Bit>(x.begin() + i, x.begin() + i + lane)), q = mkBits(std::vector<Bit>(y.begin() + i, y.begin() + i + lane));
        r.push_back(bitsOf(icmp(s, pred, p, q, lane))[0]);
    }
    return mkBits(r);
}
static bool cmpInt(unsigned pred, u64 x, u64 y, int w)
{
    i64 sx = sext64(x, w), sy = sext64(y, w);
    x = trunc64(x, w);
    y = trunc64(y, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return x == y;
    case CmpInst::ICMP_NE: return x != y;
    case CmpInst::ICMP_ULT: return x < y;
    case CmpInst::ICMP_ULE: return x <= y;
    case CmpInst::ICMP_UGT: return x > y;
    case CmpInst::ICMP_UGE: return x >= y;
    case CmpInst::ICMP_SLT: return sx < sy;
    case CmpInst::ICMP_SLE: return sx <= sy;
    case CmpInst::ICMP_SGT: return sx > sy;
    default: return sx >= sy;
    }
}
Val Interp::icmp(State& s, unsigned pred, const Val& a0, const Val& b0, int w)
{
    Val a = a0, b = b0;
    if (a.k == V_DIFF) a = concretize(s, a);
    if (b.k == V_DIFF) b = concretize(s, b);
    auto B = [&](bool x) { return mkInt(1, x); };
    bool eqp = pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE;
    auto EQ = [&](bool x) { return mkInt(1, pred == CmpInst::ICMP_EQ ? x : !x); };
    if (a.k == V_INT && b.k == V_PTR && a.a == 0) a = mkNull();
    if (b.k == V_INT && a.k == V_PTR && b.a == 0) b = mkNull();
    if (a.k == V_PTR && b.k == V_PTR) {
        if (a.pk == P_TOP || b.pk == P_TOP) return mkTop(1);
        if (a.pk == P_BUF && b.pk == P_BUF && a.a == b.a) {
            i64 p = a.b, q = b.b;
            const Buf* u = s.bufc((int)a.a);
            i64 we = u->base + (i64)u->win.size();
            if (u->rmax >= 0 && u->rmin == u->rmax) {
                if (isEndPos(p)) p = we + u->rmin + (p - ENDPOS);
                if (isEndPos(q)) q = we + u->rmin + (q - ENDPOS);
            }
            if (isEndPos(p) == isEndPos(q)) return B(cmpInt(pred, (u64)p, (u64)q, 64));
            // one is relative to the end: compare what remains after the other with k
            bool sw = isEndPos(p);
            i64 fin = sw ? q : p;
            i64 k = (sw ? p : q) - ENDPOS; // END + k
            if (fin < u->base && k >= 0) return B(sw ? cmpInt(pred, 1, 0, 64) : cmpInt(pred, 0, 1, 64));
            // END + k - fin = we + r + k - fin
            i64 need = fin - we - k; // equal iff r == need
            auto rel = [&](i64 r) { return r < need ? -1 : r > need ? 1 : 0; }; // END+k relative to fin
            int lo = rel(u->rmin), hi = u->rmax < 0 ? 1 : rel(u->rmax);
            auto res = [&](int c) { // END+k ? fin
                int x = sw ? c : -c;
                return B(cmpInt(pred, (u64)(x + 1), 1, 64));
            };
            if (lo == hi) return res(lo);
            if (eqp && lo > 0) return res(1);
            throw SplitRem { (int)a.a, we + (lo < 0 ? need - 1 : need) };
        }
        if (eqp) {
            if (a.pk != b.pk) {
                return EQ(false);
            }
            if (a.pk == P_NULL) return EQ(true);
            if (a.pk == P_OBJ && a.a != b.a && s.objc((int)a.a) && s.objc((int)b.a) && s.objc((int)a.a)->kind >= 5 && s.objc((int)b.a)->kind >= 5) {
                int q = elemSame(s, (int)a.a, (int)b.a);
                return q < 0 ? mkTop(1) : EQ(q);
            }
            if (a.pk == P_IT) {
                if (a.a == b.a && a.b == b.b && a.c == b.c && a.c != 2) return EQ(true);
                if (a.a == b.a && a.b == b.b) {
                    if (a.c == 2 && b.c == 2 && a.d == b.d) return EQ(true);
                    if ((a.c == 2) != (b.c == 2) && (a.c == 1 || b.c == 1)) return EQ(false);
                    if (a.c != 2 && b.c != 2) {
                        // begin == end iff empty
                        ConC c = conAt(s, mkPtr(P_OBJ, a.a, a.b), V_MAP);
                        return EQ(isEmptyCon(s, c));
                    }
                }
                return mkTop(1);
            }
            if (a.pk == P_SD) {
                if (a.a == b.a && a.b == b.b) {
                    if (isEndPos(a.c) == isEndPos(b.c)) return EQ(a.c == b.c);
                    StrC c = strAt(s, mkPtr(P_OBJ, a.a, a.b));
                    i64 fin = isEndPos(a.c) ? b.c : a.c;
                    if (c.k == S_CONST) return EQ((i64)c.text.size() == fin);
                    if (c.k == S_BYTES) return EQ((i64)c.bytes.size() == fin);
                    if (fin == 0) return EQ(isEmptyStr(s, c));
                    return mkTop(1);
                }
                return EQ(false);
            }
            return EQ(a.a == b.a && a.b == b.b && a.c == b.c);
        }
        if (a.pk == b.pk && a.a == b.a && a.pk != P_SD && a.pk != P_IT) return B(cmpInt(pred, (u64)a.b, (u64)b.b, 64));
        return mkTop(1);
    }
    if (a.k == V_DIFF || b.k == V_DIFF) {
        if (b.k == V_DIFF && a.k != V_DIFF) {
            return icmp(s, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), b, a, w);
        }
        const Buf* u = s.bufc((int)a.a);
        if (b.k == V_DIFF && a.a == b.a && a.b == b.b && a.c == b.c && a.d >= 0 && b.d >= 0 && !isEndPos(a.b) && (isEndPos(a.c) || a.c >= a.b)) return B(cmpInt(pred, (u64)a.d, (u64)b.d, 64));
        if (b.k == V_DIFF && a.a == b.a && a.b == b.b && !isEndPos(a.b) && !CmpInst::isSigned((CmpInst::Predicate)pred)) {
            if (!a.d && !b.d) return icmp(s, pred, mkPtr(P_BUF, a.a, a.c), mkPtr(P_BUF, b.a, b.c), 64);
            // a position a little further on
            auto exact = [&](const Val& v) { return !v.d || isEndPos(v.c) || v.c >= u->base; };
            if (exact(a) && exact(b) && !(isEndPos(a.c) && a.d > 0) && !(isEndPos(b.c) && b.d > 0) && !(isEndPos(a.c) && isEndPos(b.c))) {
                i64 we = u->base + (i64)u->win.size();
                i64 x = a.c + a.d, y = b.c + b.d;
                if (!isEndPos(a.c) && !isEndPos(b.c) && x >= u->base && y >= u->base) return B(cmpInt(pred, (u64)x, (u64)y, 64));
                // one of them is counted from the end
                i64 e = isEndPos(a.c) ? a.d : b.d, p = isEndPos(a.c) ? y : x; // END + e against p
                if (p >= u->base && p - e - we < 64) {
                    // is END + e <, =, > p, that is: is the rest r = END - we <, =, > p - e - we
                    i64 t = p - e - we;
                    auto at = [&](i64 r) { i64 E = we + r + e; return isEndPos(a.c) ? cmpInt(pred, (u64)E, (u64)p, 64) : cmpInt(pred, (u64)p, (u64)E, 64); };
                    for (i64 k : { t - 1, t }) {
                        if (k < u->rmin) continue;
                        if (u->rmax >= 0 && k >= u->rmax) continue;
                        if (at(k) != at(k + 1)) throw SplitRem { (int)a.a, we + k };
                    }
                    return B(at(u->rmin));
                }
            }
        }
        if (b.isInt()) {
            i64 k = sext64(b.a, b.w);
            i64 we = u->base + (i64)u->win.size();
            bool uns = pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE;
            if (uns && k < 0) return B(pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE); // lengths are never that large
            if (k >= (i64)1 << 61) return B(cmpInt(pred, 0, (u64)k, 64));
            if (k > 100000 && !isEndPos(a.b) && (isEndPos(a.c) || a.c >= a.b)) throw Unmodelled { "a large limit on the size" };
            if (isEndPos(a.c) && !isEndPos(a.b) && a.b >= u->base) {
                i64 C = we - a.b + a.d + (a.c - ENDPOS); // value = C + r
                if (uns && C + u->rmin < 0) return mkTop(1);
                auto at = [&](i64 r) { return cmpInt(pred, (u64)(C + r), (u64)k, 64); };
                i64 t = k - C;
                std::vector<i64> th { t - 1, t };
                for (i64 x : th) {
                    if (x < u->rmin) continue;
                    if (u->rmax >= 0 && x >= u->rmax) continue;
                    if (at(x) != at(x + 1)) throw SplitRem { (int)a.a, we + x };
                }
                return B(at(u->rmin));
            }
            if (!isEndPos(a.b) && (isEndPos(a.c) || a.c >= a.b)) {
                // a lower bound only
                i64 lo = a.d + (isEndPos(a.c) ? 0 : (a.c > a.b ? 1 : 0));
                if (isEndPos(a.c) && a.b < u->base) lo = a.d + 1 + u->rmin + (i64)u->win.size() + (a.c - ENDPOS);
                else if (!isEndPos(a.c) && a.c >= u->base && a.b < u->base) lo = a.d + 1 + (a.c - u->base);
                if (k < lo) return B(cmpInt(pred, 1, 0, 64));
                if (k == lo && (pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_ULT)) return B(false);
                if (k == lo && (pred == CmpInst::ICMP_SGE || pred == CmpInst::ICMP_UGE)) return B(true);
            }
        }
        return mkTop(1);
    }
    if (a.k == V_SZ && strC(a).k == S_OPQ && strC(a).text.compare(0, 10, "number as ") == 0) {
        if (b.k == V_SZ && strC(a).same(strC(b)) && a.w == b.w) return B(cmpInt(pred, (u64)(a.d + 100), (u64)(b.d + 100), 64));
        return spec->numCompare(s, pred, a, b);
    }
    if (a.k == V_SZ || b.k == V_SZ) {
        if (b.k == V_SZ && a.k != V_SZ) return icmp(s, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), b, a, w);
        if (b.k == V_SZ && strC(a).same(strC(b))) return B(cmpInt(pred, (u64)(a.d + 100), (u64)(b.d + 100), 64));
        if (b.isInt()) {
            i64 k = sext64(b.a, 64) - a.d;
            if (k == 0 || (k == 1 && !eqp)) {
                // compare length with zero
                bool e = isEmptyStr(s, strC(a));
                i64 n = e ? 0 : 2;
                if (k == 0) return B(cmpInt(pred, (u64)n, 0, 64));
                if (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_SGE) return B(cmpInt(pred, (u64)n, 1, 64));
            }
            if (k < 0 && eqp) return EQ(false);
            auto& c = strC(a);
            if (c.k == S_OPQ && c.text == "text" && c.ent && s.objc(c.ent) && k >= 0) return B(sizeIs(s, c.ent, pred, k));
        }
        if (explicitElems) return B(choose(s, 2, "length"));
        return mkTop(1);
    }
    if (a.k == V_CNT || b.k == V_CNT) {
        if (b.k == V_CNT && a.k != V_CNT) return icmp(s, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), b, a, w);
        if (b.k == V_CNT && conC(a).same(conC(b)) && a.a == b.a) return B(cmpInt(pred, 5, 5, 64));
        if (a.a == 0 && b.isInt() && b.a == 0) return B(cmpInt(pred, isEmptyCon(s, conC(a)) ? 0 : 2, 0, 64));
        const ConC& c = conC(a);
        if (b.k == V_IDX) {
            int g = c.k == C_SEQ && !c.part && c.segs.size() == 1 && c.segs[0].how != "elem" ? (int)c.segs[0].id : 0;
            const Obj* o = s.objc((int)b.a);
            int r = g && o && o->ghost == g ? idxSize(s, b, a.a) : 2;
            return r == 2 ? mkTop(1) : B(cmpInt(pred, 5, (u64)(5 + r), 64));
        }
        if (explicitElems && c.k == C_SEQ && !c.part) {
            i64 n = 0, g = 0, ng = 0;
            for (auto& x : c.segs) if (x.how == "elem") n++; else { ng++; g = x.id; }
            if (b.isInt() && !ng) return B(cmpInt(pred, (u64)(n + a.a), (u64)b.a, 64));
            if (b.isInt() && ng == 1) {
                i64 k = sext64(b.a, 64) - n - a.a;
                if (k < 0) return B(cmpInt(pred, 1, 0, 64));
                if (k > 0) setFact(s, (int)g, 90, 1);
                return B(sizeIs(s, (int)g, pred, k));
            }
            if (a.a == 0 && b.k == V_TOK && b.b == 7 && b.c == 1 && ng == 1 && !n) {
                // one past the index
                Val i = b;
                i.c = 0;
                if (pred == CmpInst::ICMP_UGE) return B(tokSize(s, (int)g, i) < 0);
                if (pred == CmpInst::ICMP_ULT) return B(tokSize(s, (int)g, i) >= 0);
                return mkTop(1);
            }
            if (b.k == V_TOK && b.b == 7 && b.c) return mkTop(1);
            if (a.a == -1 && b.k == V_TOK && b.b == 7 && ng == 1 && !n) {
                if (pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SGE) return B(tokSize(s, (int)g, b) < 0);
                if (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_SLT) return B(tokSize(s, (int)g, b) >= 0);
                return mkTop(1);
            }
            if (a.a) return mkTop(1);
            if (b.k == V_TOK && b.b == 7 && ng == 1 && !n) return B(cmpInt(pred, 1, (u64)(1 + tokSize(s, (int)g, b)), 64));
            if (b.k == V_CNT && ng == 1 && !n && conC(b).k == C_SEQ && conC(b).segs.size() == 1 && conC(b).segs[0].how != "elem" && conC(b).segs[0].id == g) return B(cmpInt(pred, 5, 5, 64));
        }
        return mkTop(1);
    }
    if (b.k == V_IDX && a.k != V_IDX) return icmp(s, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), b, a, w);
    if (a.k == V_IDX) {
        if (b.k == V_IDX && a.a == b.a) return B(cmpInt(pred, (u64)(a.d + 100), (u64)(b.d + 100), 64));
        // at least 2
        if (b.isInt() && sext64(b.a, 64) >= 0 && sext64(b.a, 64) < 2 + a.d) return B(cmpInt(pred, 1, 0, 64));
        return mkTop(1);
    }
    if (a.k == V_TOK && a.b == 8 && b.k == V_TOK && b.b == 8 && a.a == b.a) return B(cmpInt(pred, (u64)(a.c + (1 << 20)), (u64)(b.c + (1 << 20)), 64));
    if (b.k == V_TOK && b.b == 8 && a.isInt()) return icmp(s, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), b, a, w);
    if (a.k == V_TOK && a.b == 8 && b.isInt() && w == 64) return numberCompare(s, pred, a, b);
    if (b.k == V_TOK && b.b == 7 && a.isInt()) return icmp(s, CmpInst::getSwappedPredicate((CmpInst::Predicate)pred), b, a, w);
    if (a.k == V_TOK && a.b == 7 && b.isInt() && b.a == ~0ull && (pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_UGT)) return B(pred == CmpInst::ICMP_ULE);
    if (a.k == V_TOK && a.b == 7 && a.c == 0 && b.isInt() && b.a == 0 && (pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_ULT)) return B(pred == CmpInst::ICMP_UGE);
    if (a.k == V_TOK && b.k == V_TOK && a.a == b.a && a.b == b.b && a.c == b.c) return B(cmpInt(pred, 5, 5, 64));
    if (a.k == V_TOK && w == 1 && b.isInt() && eqp) {
        bool inv = (pred == CmpInst::ICMP_NE) == (bool)(b.a & 1);
        if (inv) a.c ^= 1;
        return a;
    }
    auto isS = [](const Val& v) { return v.k == V_INT || v.k == V_BITS || v.k == V_TOP; };
    if (!isS(a) || !isS(b)) {
        if (a.k == V_UNDEF || b.k == V_UNDEF) { Val u; u.w = 1; return u; }
        return mkTop(1);
    }
    Val out;
    if ((a.k != V_TOP && b.k != V_TOP) && pointwise(s, a, b, 1, [&](u64 x, u64 y) { return (u64)cmpInt(pred, x, y, w); }, out)) return out;
    auto x = bitsOf(a), y = bitsOf(b);
    x.resize(w, BT());
    y.resize(w, BT());
    for (auto& t : x) t = norm(s, t);
    for (auto& t : y) t = norm(s, t);
    if (eqp) {
        bool top = false;
        for (int i = 0; i < w; i++) if (x[i].t < 2 && y[i].t < 2 && x[i].t != y[i].t) return EQ(false);
        for (int i = 0; i < w; i++) {
            if (x[i] == y[i] && x[i].t != 2) continue;
            if (x[i].t == 2 || y[i].t == 2) { top = true; continue; }
            if (x[i].t == 3) throw SplitVar { x[i].var, maskOf(x[i].mask) };
            throw SplitVar { y[i].var, maskOf(y[i].mask) };
        }
        return top ? mkTop(1) : EQ(true);
    }
    bool sgn = CmpInst::isSigned((CmpInst::Predicate)pred);
    if (sgn) { x[w - 1] = bitNot(x[w - 1]); y[w - 1] = bitNot(y[w - 1]); }
    for (int i = w - 1; i >= 0; i--) {
        if (x[i] == y[i] && x[i].t != 2) continue;
        if (x[i].t == 2 || y[i].t == 2) return mkTop(1);
        if (x[i].t == 3) throw SplitVar { x[i].var, maskOf(x[i].mask) };
        if (y[i].t == 3) throw SplitVar { y[i].var, maskOf(y[i].mask) };
        bool less = x[i].t == 0;
        switch (pred) {
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLT: case CmpInst::ICMP_SLE: return B(less);
        default: return B(!less);
        }
    }
    return B(pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLE || pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SGE);
}

int Interp::choose(State& s, int n, const std::string& what)
{
    if (s.choiceAt < s.choices.size()) return s.choices[s.choiceAt++];
    throw NeedChoice { n, what };
}
bool Interp::decideTok(State& s, i64 id, const std::string& what)
{
    i64 v = s.tokGet(id, -1);
    if (v >= 0) return v;
    int c = choose(s, 2, what);
    s.tokSet(id, c);
    return c;
}
bool Interp::truth(State& s, const Val& c, const char* what)
{
    if (c.k == V_INT) return c.a & 1;
    if (c.k == V_BITS) {
        Bit b = norm(s, bitsOf(c)[0]);
        if (b.t < 2) return b.t;
        if (b.t == 3) throw SplitVar { b.var, maskOf(b.mask) };
        return guess(s, 2, what);
    }
    if (c.k == V_TOK) {
        bool v = decideTok(s, c.a, what);
        return v != (bool)(c.c & 1);
    }
    if (c.k == V_UNDEF) throw Bug { "undefined", "branches on an uninitialised value" };
    return guess(s, 2, what);
}

// ---------------------------------------------------------------- control
void Interp::pushFrame(State& s, FnInfo* f, const std::vector<Val>& args)
{
    analyse(*f);
    f->visits++;
    if (s.st.size() > 200) throw Unmodelled { "call depth" };
    auto fr = std::make_shared<Frame>();
    fr->fn = f;
    fr->env.resize(f->nslots);
    int i = 0;
    for (auto& a : f->F->args()) {
        Val v = i < (int)args.size() ? args[i] : Val();
        if (a.hasByValAttr() && v.k == V_PTR) {
            i64 n = (i64)DL.getTypeAllocSize(a.getParamByValType());
            int o = s.newObj((int)n, 0);
            copyMem(s, mkPtr(P_OBJ, o, 0), v, n);
            v = mkPtr(P_OBJ, o, 0);
            fr->allocas.push_back(o);
        }
        fr->env[f->slot[&a]] = v;
        i++;
    }
    fr->bb = &f->F->getEntryBlock();
    fr->pc = &*fr->bb->begin();
    s.st.push_back(fr);
}
Interp::SR Interp::jump(State& s, const BasicBlock* to)
{
    Frame& f = s.top();
    const BasicBlock* from = f.bb;
    std::vector<std::pair<const Value*, Val>> phis;
    for (auto& p : to->phis()) phis.push_back({ &p, eval(s, p.getIncomingValueForBlock(from)) });
    Frame& g = s.top();
    for (auto& p : phis) setSlot(s, p.first, p.second);
    g.bb = to;
    g.pc = &*to->getFirstNonPHIIt();
    if (!to->getSinglePredecessor() && pred_size(to) > 1) return NODE;
    return CONT;
}
static void killAllocas(State& s, const Frame& f)
{
    for (int a : f.allocas) if (Obj* o = s.obj(a)) { o->dead = true; o->cells.clear(); }
}
Interp::SR Interp::retValue(State& s, const Val& v)
{
    std::shared_ptr<Frame> done = s.st.back();
    killAllocas(s, *done);
    s.st.pop_back();
    if (s.st.empty()) { s.ret = v; return DONE; }
    Frame& f = s.top();
    if (f.stage) { f.tmp.push_back(v); return CONT; } // a model continues: it re-executes its call
    const Instruction* ci = f.pc;
    if (!ci->getType()->isVoidTy()) setSlot(s, ci, v);
    bool multi = done->fn->F->size() > 1;
    if (auto* inv = dyn_cast<InvokeInst>(ci)) {
        SR r = jump(s, inv->getNormalDest());
        return multi ? NODE : r;
    }
    f.pc = ci->getNextNode();
    return multi ? NODE : CONT;
}
void Interp::throwType(State& s, const std::string& type)
{
    int o = s.newObj(16, 3);
    s.excObj = o;
    s.excType = type;
}
bool Interp::typeMatches(const std::string& t, const std::string& c)
{
    if (t == c) return true;
    static const std::map<std::string, std::string> up = {
        { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" },
        { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12domain_error", "_ZTISt11logic_error" }, { "_ZTISt11logic_error", "_ZTISt9exception" },
        { "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt11range_error", "_ZTISt13runtime_error" }, { "_ZTISt19bad_optional_access", "_ZTISt9exception" },
        { "_ZTISt18bad_variant_access", "_ZTISt9exception" }, { "_ZTISt8bad_cast", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" },
        { "_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error" }, { "_ZTISt12system_error", "_ZTISt13runtime_error" },
    };
    auto it = up.find(t);
    if (it != up.end()) return typeMatches(it->second, c);
    if (auto* g = M.getNamedGlobal(t))
        if (g->hasInitializer())
            if (auto* st = dyn_cast<ConstantStruct>(g->getInitializer()))
                for (unsigned i = 2; i < st->getNumOperands(); i++)
                    if (auto* b = dyn_cast<GlobalVariable>(st->getOperand(i)->stripPointerCasts()))
                        if (b->getName().starts_with("_ZTI") && typeMatches(b->getName().str(), c)) return true;
    return false;
}
Interp::SR Interp::unwind(State& s)
{
    while (true) {
        if (s.st.empty()) { s.thrown = true; return DONE; }
        Frame& f = s.top();
        f.stage = 0;
        f.tmp.clear();
        if (auto* inv = dyn_cast<InvokeInst>(f.pc)) {
            const BasicBlock* lb = inv->getUnwindDest();
            auto* lp = lb->getLandingPadInst();
            bool hit = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses() && !hit; i++) {
                if (!lp->isCatch(i)) { hit = true; continue; }
                auto* c = lp->getClause(i)->stripPointerCasts();
                if (isa<ConstantPointerNull>(c)) hit = true;
                else if (auto* g = dyn_cast<GlobalVariable>(c)) hit = typeMatches(s.excType, g->getName().str());
            }
            if (hit) return jump(s, lb);
        }
        else if (f.fn->F->doesNotThrow() || f.pc->hasMetadata("nounwind-never")) {
            throw Bug { "terminate", "an exception (" + demangleNorm(demangle(s.excType)) + ") leaves a noexcept function" };
        }
        std::shared_ptr<Frame> done = s.st.back();
        if (done->fn->F->doesNotThrow()) throw Bug { "terminate", "an exception (" + demangleNorm(demangle(s.excType)) + ") leaves a noexcept function" };
        killAllocas(s, *done);
        s.st.pop_back();
    }
}

Interp::SR Interp::doCall(State& s, const CallBase& cb)
{
    std::vector<Val> args;
    for (auto& a : cb.args()) args.push_back(eval(s, a.get()));
    Function* F = cb.getCalledFunction();
    if (!F) {
        Value* cv = cb.getCalledOperand()->stripPointerCasts();
        F = dyn_cast<Function>(cv);
        if (!F) {
            Val t = eval(s, cb.getCalledOperand());
            if (t.isPtr(P_FUNC)) F = funcs[t.a];
            else if (t.isPtr(P_NULL)) throw Bug { "undefined", "call through a null pointer" };
            else throw Unmodelled { "indirect call" };
        }
    }
    Val ret;
    MR r = M_NONE;
    if (F->isIntrinsic()) {
        r = intrinsic(s, cb, F, args, ret);
        if (r == M_NONE) throw Unmodelled { "intrinsic " + F->getName().str() };
    }
    else {
        FnInfo* fi = info(F);
        r = model(s, cb, *fi, args, ret);
        if (r == M_NONE) {
            if (F->isDeclaration()) throw Unmodelled { "external function " + fi->dem };
            if (heads.count(F)) return CUT;
            pushFrame(s, fi, args);
            return CONT;
        }
    }
    if (r == M_AGAIN) return CONT;
    Frame& f = s.top();
    f.stage = 0;
    f.tmp.clear();
    if (r == M_THROW) return unwind(s);
    if (!cb.getType()->isVoidTy()) setSlot(s, &cb, ret);
    if (auto* inv = dyn_cast<InvokeInst>(&cb)) return jump(s, inv->getNormalDest());
    f.pc = cb.getNextNode();
    return CONT;
}

Interp::SR Interp::step(State& s)
{
    const Instruction& I = *s.topc().pc;
    auto next = [&](const Val& v) {
        setSlot(s, &I, v);
        s.top().pc = I.getNextNode();
        return CONT;
    };
    auto O = [&](unsigned i) { return eval(s, I.getOperand(i)); };
    switch (I.getOpcode()) {
    case Instruction::Alloca: {
        auto& ai = cast<AllocaInst>(I);
        int o = s.newObj((int)DL.getTypeAllocSize(ai.getAllocatedType()).getFixedValue(), 0);
        s.top().allocas.push_back(o);
        return next(mkPtr(P_OBJ, o, 0));
    }
    case Instruction::Load: {
        Val p = O(0);
        return next(loadTy(s, p, I.getType()));
    }
    case Instruction::Store: {
        Val v = O(0), p = O(1);
        storeTy(s, p, v, I.getOperand(0)->getType());
        s.top().pc = I.getNextNode();
        return CONT;
    }
    case Instruction::GetElementPtr: {
        auto& g = cast<GetElementPtrInst>(I);
        Val p = O(0);
        MapVector<Value*, APInt> var;
        APInt off(64, 0);
        if (!g.collectOffset(DL, 64, var, off)) throw Unmodelled { "gep" };
        i64 c = off.getSExtValue();
        // constant and variable parts together, so that no intermediate position is judged
        if (var.empty()) return next(ptrAdd(s, p, c));
        if (var.size() == 1 && c == 0) {
            auto& v = *var.begin();
            return next(ptrAddVar(s, p, eval(s, v.first), v.second.getSExtValue()));
        }
        for (auto& v : var) {
            Val i = concretize(s, eval(s, v.first));
            if (i.k != V_INT) throw Unmodelled { "pointer with an unknown offset" };
            c += sext64(i.a, i.w) * v.second.getSExtValue();
        }
        return next(ptrAdd(s, p, c));
    }
    case Instruction::Br: {
        auto& b = cast<BranchInst>(I);
        if (b.isUnconditional()) return jump(s, b.getSuccessor(0));
        bool t = truth(s, O(0));
        return jump(s, b.getSuccessor(t ? 0 : 1));
    }
    case Instruction::Switch: {
        auto& sw = cast<SwitchInst>(I);
        Val c = O(0);
        if (c.k == V_UNDEF) throw Bug { "undefined", "switches on an uninitialised value" };
        if (c.k == V_DIFF) c = concretize(s, c);
        if (c.k == V_INT) {
            const BasicBlock* d = sw.getDefaultDest();
            for (auto& cs : sw.cases()) if (trunc64(cs.getCaseValue()->getZExtValue(), c.w) == (u64)c.a) d = cs.getCaseSuccessor();
            return jump(s, d);
        }
        if (c.k == V_BITS) {
            // group the cases by destination
            std::map<const BasicBlock*, std::vector<u64>> by;
            std::vector<const BasicBlock*> order;
            for (auto& cs : sw.cases()) {
                const BasicBlock* d = cs.getCaseSuccessor();
                if (!by.count(d)) order.push_back(d);
                by[d].push_back(cs.getCaseValue()->getZExtValue());
            }
            for (auto* d : order) {
                Val out;
                auto& vs = by[d];
                if (!pointwise(s, c, mkInt(c.w, 0), 1, [&](u64 x, u64) { for (u64 v : vs) if (trunc64(v, c.w) == trunc64(x, c.w)) return (u64)1; return (u64)0; }, out)) {
                    concretize(s, c);
                    return jump(s, order[0]);
                }
                if (out.k == V_INT) { if (out.a) return jump(s, d); continue; }
                truth(s, out); // splits
            }
            return jump(s, sw.getDefaultDest());
        }
        int n = (int)sw.getNumCases() + 1;
        int k = guess(s, n, "switch");
        if (k == 0) return jump(s, sw.getDefaultDest());
        auto it = sw.case_begin();
        std::advance(it, k - 1);
        return jump(s, it->getCaseSuccessor());
    }
    case Instruction::Ret: {
        Val v;
        if (I.getNumOperands()) v = O(0);
        return retValue(s, v);
    }
    case Instruction::Unreachable: throw Bug { "undefined", "reaches code marked unreachable" };
    case Instruction::Call:
    case Instruction::Invoke: return doCall(s, cast<CallBase>(I));
    case Instruction::LandingPad: {
        auto& lp = cast<LandingPadInst>(I);
        i64 sel = 0;
        for (unsigned i = 0; i < lp.getNumClauses(); i++) {
            if (!lp.isCatch(i)) { sel = -1; break; }
            auto* c = lp.getClause(i)->stripPointerCasts();
            if (isa<ConstantPointerNull>(c)) { sel = 999999; break; }
            if (auto* g = dyn_cast<GlobalVariable>(c)) if (typeMatches(s.excType, g->getName().str())) { sel = 1000 + globIds[g]; break; }
        }
        if (sel == -1) throw Bug { "terminate", "exception specification violated" };
        return next(mkAgg({ mkPtr(P_OBJ, s.excObj, 0), mkInt(32, (u64)sel) }));
    }
    case Instruction::Resume: {
        std::shared_ptr<Frame> done = s.st.back();
        if (done->fn->F->doesNotThrow()) throw Bug { "terminate", "an exception leaves a noexcept function" };
        killAllocas(s, *done);
        s.st.pop_back();
        return unwind(s);
    }
    case Instruction::ExtractValue: {
        Val v = O(0);
        for (unsigned i : cast<ExtractValueInst>(I).indices()) {
            if (v.k != V_AGG) { v = Val(); break; }
            v = aggOf(v)[i];
        }
        return next(v);
    }
    case Instruction::InsertValue: {
        Val a = O(0), v = O(1);
        std::function<Val(const Val&, ArrayRef<unsigned>, Type*)> ins = [&](const Val& x, ArrayRef<unsigned> idx, Type* t) -> Val {
            if (idx.empty()) return v;
            std::vector<Val> e;
            if (x.k == V_AGG) e = aggOf(x);
            else e.resize(cast<StructType>(t)->getNumElements());
            e[idx[0]] = ins(e[idx[0]], idx.slice(1), cast<StructType>(t)->getElementType(idx[0]));
            return mkAgg(e);
        };
        return next(ins(a, cast<InsertValueInst>(I).getIndices(), I.getType()));
    }
    case Instruction::ICmp: {
        Type* t = I.getOperand(0)->getType();
        int w = widthOf(t), lane = t->isVectorTy() ? widthOf(t->getScalarType()) : w;
        return next(icmpLanes(s, cast<ICmpInst>(I).getPredicate(), O(0), O(1), w, lane));
    }
    case Instruction::FCmp: return next(mkTop(1));
    case Instruction::Select: {
        Val c = O(0), a = O(1), b = O(2);
        if (c.k == V_BITS && c.w == 1 && (a.k == V_INT || a.k == V_BITS) && (b.k == V_INT || b.k == V_BITS) && a.w <= 32) {
            // as arithmetic on one byte, if possible
            auto x = bitsOf(a), y = bitsOf(b);
            std::vector<Bit> xy = x;
            Bit cc = norm(s, bitsOf(c)[0]);
            bool ok = cc.t == 3;
            for (auto* v : { &x, &y }) for (auto& q : *v) { q = norm(s, q); if (q.t == 2 || (q.t == 3 && ok && q.var != cc.var)) ok = false; }
            if (ok) {
                std::vector<Bit> r;
                for (size_t i = 0; i < x.size(); i++) r.push_back(bitOr(s, bitAnd(s, cc, x[i]), bitAnd(s, bitNot(cc), y[i])));
                return next(mkBits(r));
            }
        }
        if (I.getOperand(0)->getType()->isVectorTy()) throw Unmodelled { "vector select" };
        return next(truth(s, c, "select") ? a : b);
    }
    case Instruction::ZExt:
    case Instruction::SExt:
    case Instruction::Trunc: {
        Val v = O(0);
        Type *ft = I.getOperand(0)->getType(), *tt = I.getType();
        int fl = widthOf(ft->getScalarType()), tl = widthOf(tt->getScalarType()), n = widthOf(ft) / fl;
        if (explicitElems && I.getOpcode() == Instruction::ZExt && n == 1 && fl % 8 == 0 && tl % 8 == 0 && (isImage(v) || (v.k == V_SZ && v.w == fl && fl < 64 && strC(v).text.compare(0, 18, "number as unsigned") != 0))) {
            auto cs = cellsOf(v, fl / 8);
            for (int i = fl / 8; i < tl / 8; i++) cs.push_back({ i, 1, mkInt(8, 0) });
            return next(mkImage(cs, tl / 8));
        }
        if (isImage(v)) {
            Val r;
            if (I.getOpcode() == Instruction::Trunc && cutImage(v, fl / 8, 0, std::max(1, tl / 8), r)) {
                if (tl < 8) { auto b = bitsOf(r); b.resize(tl, BT()); r = mkBits(b); }
                return next(r);
            }
            return next(mkTop(tl * n));
        }
        if (v.k == V_SZ && n == 1 && strC(v).k == S_OPQ && strC(v).text.compare(0, 10, "number as ") == 0) {
            // the value of an integer, kept in as many bits
            if (v.d || (I.getOpcode() == Instruction::ZExt && strC(v).text.compare(10, 8, "unsigned") != 0)) return next(mkTop(tl));
            v.w = (uint16_t)tl;
            return next(v);
        }
        if (v.k == V_DIFF || v.k == V_SZ || v.k == V_CNT || v.k == V_PTR) { if (v.k == V_DIFF) v = concretize(s, v); if (v.k != V_INT) { if (tl >= 64) return next(v); return next(mkTop(tl * n)); } }
        if (v.k == V_TOK) {
            if (I.getOpcode() == Instruction::Trunc && tl == 1) { v.w = 1; return next(v); }
            if (fl == 1) { v.w = (uint16_t)tl; return next(v); }
            return next(mkTop(tl * n));
        }
        if (v.k == V_UNDEF) { v.w = (uint16_t)(tl * n); return next(v); }
        auto b = bitsOf(v);
        std::vector<Bit> r;
        for (int l = 0; l < n; l++)
            for (int i = 0; i < tl; i++) r.push_back(i < fl ? b[l * fl + i] : I.getOpcode() == Instruction::SExt ? b[l * fl + fl - 1] : B0());
        return next(mkBits(r));
    }
    case Instruction::PtrToInt: {
        Val v = O(0);
        if (v.isPtr(P_NULL)) return next(mkInt(widthOf(I.getType()), 0));
        return next(v);
    }
    case Instruction::IntToPtr: {
        Val v = O(0);
        if (v.isInt()) return next(v.a == 0 ? mkNull() : mkPtr(P_TOP, v.a));
        return next(v);
    }
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
    case Instruction::Freeze: {
        Val v = O(0);
        return next(v);
    }
    case Instruction::FPExt:
    case Instruction::FPTrunc:
    case Instruction::FPToSI:
    case Instruction::FPToUI:
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
        Val v = O(0);
        if (v.k == V_SZ && !v.d && strC(v).k == S_OPQ && strC(v).text.find("number as ") != std::string::npos) {
            // a wider type has the same value, a narrower one or one of the other kind may not
            bool toInt = I.getOpcode() == Instruction::FPToSI || I.getOpcode() == Instruction::FPToUI;
            if (toInt) return next(mkTop(widthOf(I.getType())));
            StrC c = strC(v);
            bool toFloat = I.getOpcode() == Instruction::SIToFP || I.getOpcode() == Instruction::UIToFP;
            if (toFloat) setFact(s, c.ent, 700, 0);
            std::string to = I.getType()->isFloatTy() ? "float" : I.getType()->isDoubleTy() ? "double" : "long double";
            if (toFloat) c.text = "inexact number as " + to;
            else if (I.getOpcode() == Instruction::FPTrunc && c.text.compare(0, 2, "in")) c.text = "inexact " + c.text;
            v.p = std::make_shared<StrC>(c);
            v.w = (uint16_t)widthOf(I.getType());
            return next(v);
        }
        if (I.getOpcode() == Instruction::FPExt && v.k == V_TOK) { v.w = (uint16_t)widthOf(I.getType()); v.d = v.d * 16 + 1; return next(v); }
        return next(mkTop(widthOf(I.getType())));
    }
    case Instruction::FNeg: return next(mkTop(widthOf(I.getType())));
    case Instruction::InsertElement: {
        auto* vt = cast<FixedVectorType>(I.getType());
        int el = widthOf(vt->getElementType());
        Val v = O(0), x = O(1), i = concretize(s, O(2));
        auto b = bitsOf(v);
        b.resize(widthOf(vt), BT());
        auto e = bitsOf(x);
        e.resize(el, BT());
        for (int k = 0; k < el; k++) b[i.a * el + k] = e[k];
        auto p = std::make_shared<BitsP>();
        p->b = b;
        Val r;
        r.k = V_BITS;
        r.w = (uint16_t)b.size();
        r.p = p;
        return next(r);
    }
    case Instruction::ExtractElement: {
        auto* vt = cast<FixedVectorType>(I.getOperand(0)->getType());
        int el = widthOf(vt->getElementType());
        auto b = bitsOf(O(0));
        Val i = concretize(s, O(1));
        return next(mkBits(std::vector<Bit>(b.begin() + i.a * el, b.begin() + i.a * el + el)));
    }
    case Instruction::ShuffleVector: {
        auto& sv = cast<ShuffleVectorInst>(I);
        auto* vt = cast<FixedVectorType>(sv.getOperand(0)->getType());
        int el = widthOf(vt->getElementType()), n = (int)vt->getNumElements();
        auto a = bitsOf(O(0)), b = bitsOf(O(1));
        a.resize(n * el, BT());
        b.resize(n * el, BT());
        std::vector<Bit> r;
        for (int m : sv.getShuffleMask())
            for (int k = 0; k < el; k++) r.push_back(m < 0 ? BT() : m < n ? a[m * el + k] : b[(m - n) * el + k]);
        return next(mkBits(r));
    }
    case Instruction::Fence: s.top().pc = I.getNextNode(); return CONT;
    case Instruction::AtomicRMW: { // one thread
        auto& rm = cast<AtomicRMWInst>(I);
        Type* t = I.getType();
        Val p = O(0), v = O(1);
        if (!t->isIntegerTy()) throw Unmodelled { "atomic operation" };
        Val old = loadTy(s, p, t), now = v;
        if (rm.getOperation() == AtomicRMWInst::Add) now = binop(s, Instruction::Add, old, v, widthOf(t));
        else if (rm.getOperation() == AtomicRMWInst::Sub) now = binop(s, Instruction::Sub, old, v, widthOf(t));
        else if (rm.getOperation() != AtomicRMWInst::Xchg) throw Unmodelled { "atomic operation" };
        storeTy(s, p, now, t);
        return next(old);
    }
    case Instruction::AtomicCmpXchg: throw Unmodelled { "atomic operation" };
    default:
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
            Type* t = I.getType();
            if (t->isFPOrFPVectorTy()) return next(mkTop(widthOf(t)));
            int w = widthOf(t), lane = t->isVectorTy() ? widthOf(t->getScalarType()) : w;
            return next(binLanes(s, bo->getOpcode(), O(0), O(1), w, lane));
        }
        throw Unmodelled { std::string("instruction ") + I.getOpcodeName() };
    }
}

// ---------------------------------------------------------------- nodes
void Interp::prune(State& s)
{
    for (size_t i = 0; i < s.st.size(); i++) {
        const Frame& c = *s.st[i];
        const BitVector* live;
        bool top = i + 1 == s.st.size();
        BitVector own;
        if (top) {
            if (c.stage == -1) {
                own = c.fn->liveAfter[c.pc];
                auto r = c.fn->slot.find(c.pc);
                if (r != c.fn->slot.end()) own.reset(r->second);
                for (auto& o : c.pc->operands()) { auto q = c.fn->slot.find(o.get()); if (q != c.fn->slot.end()) own.set(q->second); }
                live = &own;
            }
            else if (c.pc == &*c.bb->getFirstNonPHIIt()) live = &c.fn->liveIn[c.bb];
            else {
                // after a call: the live set of that call
                const Instruction* prev = c.pc->getPrevNode();
                while (prev && isa<DbgInfoIntrinsic>(prev)) prev = prev->getPrevNode();
                auto it = c.fn->liveAfter.find(prev);
                if (it == c.fn->liveAfter.end()) continue;
                live = &it->second;
            }
        }
        else {
            auto it = c.fn->liveAfter.find(c.pc);
            if (it == c.fn->liveAfter.end()) continue;
            live = &it->second;
            if (c.stage) continue;
        }
        bool any = false;
        for (size_t k = 0; k < c.env.size(); k++) if (!live->test(k) && c.env[k].k != V_UNDEF) any = true;
        if (!any) continue;
        auto& f = s.st[i];
        if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
        for (size_t k = 0; k < f->env.size(); k++) if (!live->test(k)) f->env[k] = Val();
    }
    // at an invoke the call's result and the landing pad's operands differ: liveAfter covers both
}

struct LiveRefs : RefVisitor
{
    int id;
    i64 hot = -1;    // the furthest position the program holds
    i64 strong = -1; // the furthest one that is kept in an object, rather than in a temporary iterator
    bool inObj = false;
    std::set<int> vars;
    std::vector<int> q;
    std::set<int> seen;
    std::vector<i64> poss;
    bool text = false; // inside the description of a text: does not say where the program is
    void obj(int o) override { if (seen.insert(o).second) q.push_back(o); }
    void buf(int) override { }
    void pos(int b, i64 p) override { if (b == id && p != UNKPOS && !isEndPos(p)) { if (!text) { hot = std::max(hot, p); if (inObj) strong = std::max(strong, p); } poss.push_back(p); } }
    void var(int v) override { vars.insert(v); }
};
static LiveRefs liveRefs(State& s, int buf)
{
    LiveRefs r;
    r.id = buf;
    for (auto& f : s.st) { for (auto& v : f->env) { r.text = v.k == V_SZ; visitRefs(v, r); } for (auto& v : f->tmp) { r.text = v.k == V_SZ || v.k == V_STR; visitRefs(v, r); } }
    r.text = false;
    for (auto& o : s.objs) if (o.second->kind == 2 || o.second->kind == 4) r.obj(o.first);
    while (!r.q.empty()) {
        int o = r.q.back();
        r.q.pop_back();
        const Obj* x = s.objc(o);
        if (!x || x->dead) continue;
        if (x->owner) r.obj(x->owner);
        r.inObj = x->size > 8;
        for (auto& c : x->cells) { r.text = c.v.k == V_STR; visitRefs(c.v, r); }
    }
    return r;
}
i64 Interp::hotPos(State& s, int buf) { return liveRefs(s, buf).hot; }

// Hand the bytes that the program has passed to the specification.
bool Interp::sync(State& s, bool all)
{
    for (auto& bp : std::vector<std::pair<int, std::shared_ptr<Buf>>>(s.bufs)) {
        int id = bp.first;
        if (s.bufc(id)->kind != 0) continue;
        LiveRefs lr = liveRefs(s, id);
        bool scan = spec->scanning(s) || spec->over(s), moved = lr.hot > s.bufc(id)->hi;
        while (true) {
            const Buf* b = s.bufc(id);
            if (b->base >= lr.hot || b->win.empty()) break;
            int var = b->win[0];
            i64 pos = b->base;
            // a temporary iterator may look a little ahead
            if (pos >= lr.strong && lr.hot - pos <= 2) break;
            bool far = all || lr.hot - pos > 14;
            if (!far && (lr.vars.count(var) || spec->pin(s, id, pos))) break;
            if (spec->keep(s, id, pos)) break;
            spec->retire(s, id, pos, var); // may split
            s.labels.push_back(std::string(1, (char)s.setOf(var).first()));
            s.progress = true;
            Buf* m = s.buf(id);
            for (i64 p : lr.poss) if (p == pos) { m->old.push_back({ pos, var }); break; }
            m->win.erase(m->win.begin());
            m->base++;
            moved = true;
        }
        // bytes looked at but not restricted
        Buf* b = s.buf(id);
        b->hi = lr.hot;
        int folded = 0;
        spec->tidy(s);
        b = s.buf(id);
        if (spec->over(s)) {
            // whatever follows, the text is wrong
            size_t keep = 0;
            for (size_t k = 0; k < b->win.size(); k++) if (lr.vars.count(b->win[k]) || b->base + (i64)k <= lr.hot) keep = k + 1;
            folded = (int)(b->win.size() - keep);
            b->win.resize(keep);
            b->rmin += folded;
            b->known += folded;
            if (folded) b->rmax = -1;
        }
        while (!b->win.empty() && b->base + (i64)b->win.size() - 1 >= std::max(lr.hot, b->base)) {
            int v = b->win.back();
            if (lr.vars.count(v)) break;
            if (s.setOf(v) != M256::all()) {
                // what a block scan has seen behind the byte it stopped at
                if (!(moved && (scan || spec->scanning(s) || spec->over(s)) && b->base + (i64)b->win.size() - 1 > lr.hot)) break;
            }
            b->win.pop_back();
            b->rmin++;
            b->known++;
            if (b->rmax >= 0) b->rmax++;
            folded++;
        }
        b->known = std::max(b->known, b->rmin);
        if (b->rmin > 1 && moved && b->win.empty() && (spec->scanning(s) || spec->over(s))) b->rmin = 1;
        if (b->rmin > (!moved ? 64 : 8)) b->rmin = 8;
        if (folded > 2 && moved) b->rmin = 1;
        // every position that the program holds has been found to be within the input
        b->rmin = std::max(b->rmin, lr.hot - b->base - (i64)b->win.size());
        if (b->rmax >= 0 && b->rmax < b->rmin) b->rmax = b->rmin;
        if (b->rmax > 3) b->rmax = -1;
    }
    return true;
}

// Counters of loops over the input become positions in it.
void Interp::indices(State& s)
{
    for (auto& bp : s.bufs) {
        const Buf* b = bp.second.get();
        if (b->kind != 0 || b->base != 0 || b->win.empty()) continue;
        for (auto& f : s.st)
            for (auto& bb : *f->fn->F)
                for (auto& ph : bb.phis()) {
                    if (!ph.getType()->isIntegerTy(64)) continue;
                    int k = f->fn->slot[&ph];
                    if (f->env[k].k != V_INT || (i64)f->env[k].a < 1 || (i64)f->env[k].a > (i64)b->win.size()) continue;
                    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
                    f->env[k] = mkDiff(bp.first, 0, (i64)f->env[k].a);
                }
    }
}
void Interp::arrive(State& s)
{
    // s is pruned and synchronised
    State c = s;
    if (explicitElems) countLoop(c);
    if (indexPhis) indices(c);
    std::string label;
    for (auto& l : c.labels) label += l;
    bool prog = c.progress;
    c.labels.clear();
    c.progress = false;
    c.swarStop = 99;
    std::string key = std::to_string(curCtx) + ":" + canon(c);
    auto& bucket = index[key];
    std::vector<Val> sc;
    forScalars(c, [&](Val& v) { sc.push_back(v); });
    int target = -1;
    for (int id : bucket) {
        Node& n = *nodes[id];
        std::vector<Val> as = n.sc;
        State t = n.s;
        int r = tryJoin(t, c, as, sc);
        if (r == 1) { target = id; break; }
        if (r == 2) {
            n.s = t;
            n.sc = as;
            if (!n.queued) { n.queued = true; queue.push_back(id); }
            joins++;
            target = id;
            break;
        }
    }
    if (target < 0) {
        auto n = std::make_unique<Node>();
        n->s = c;
        n->sc = sc;
        n->ctx = curCtx;
        n->parent = curNode;
        n->label = label;
        n->dist = (int)label.size() + (curNode >= 0 ? nodes[curNode]->dist : curCtx > 0 && ctxs[curCtx].parentNode >= 0 ? nodes[ctxs[curCtx].parentNode]->dist : 0);
        n->queued = true;
        if (!c.bufs.empty()) n->hot = std::max<i64>(hotPos(c, c.bufs[0].first) - c.bufs[0].second->base, 0);
        target = (int)nodes.size();
        nodes.push_back(std::move(n));
        queue.push_back(target);
        bucket.push_back(target);
    }
    if (curNode >= 0) nodes[curNode]->succ.push_back({ target, prog });
}

std::string Interp::locOf(const State& s)
{
    for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) {
        const Frame& f = **it;
        if (!f.pc) continue;
        if (auto& d = f.pc->getDebugLoc()) {
            const DILocation* L = d.get();
            while (L) {
                std::string fn = L->getFilename().str();
                for (const char* dir : { "/include/common/", "/include/parser/", "/include/reflection/", "/include/json.hpp" }) {
                    size_t at = fn.rfind(dir);
                    if (at != std::string::npos) return fn.substr(at + 1) + ":" + std::to_string(L->getLine());
                }
                L = L->getInlinedAt();
            }
        }
    }
    return "";
}
std::string Interp::trace(const State& s, bool own)
{
    std::vector<std::string> parts;
    std::string cur;
    for (auto& l : s.labels) cur += l;
    parts.push_back(cur);
    int n = curNode;
    int guard = 0;
    int ctx = curCtx;
    while (guard++ < 100000) {
        if (n < 0) {
            if (ctx <= 0 || own) break;
            n = ctxs[ctx].parentNode;
            if (n < 0) break;
            ctx = nodes[n]->ctx;
            continue;
        }
        parts.push_back(nodes[n]->label);
        n = nodes[n]->parent;
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) r += *it;
    return r;
}
static std::string showText(const std::string& t)
{
    std::string r;
    for (unsigned char c : t) r += c == ' ' ? " " : chStrPublic(c);
    return r;
}
void Interp::report(State& s, const std::string& rule, const std::string& msg)
{
    if (s.fuzzy) { unmodelled.insert("a decision on a value that is not known leads to: " + msg + " (" + rule + ") " + locOf(s)); return; }
    Finding f;
    f.rule = rule;
    f.msg = msg;
    f.loc = locOf(s);
    if (!s.st.empty()) f.fn = s.topc().fn->dem;
    std::string k = rule + "|" + msg + "|" + f.loc;
    if (!findingKeys.insert(k).second) return;
    if (getenv("JSONAI_DEBUG")) {
        fprintf(stderr, "REPORT %s\n%s", k.c_str(), dump(s).c_str());
        for (int n = curNode, i = 0; n >= 0 && i < 400; n = nodes[n]->parent, i++) fprintf(stderr, "--- node %d ctx %d label %s %s\n%s", n, nodes[n]->ctx, nodes[n]->label.c_str(), locOf(nodes[n]->s).c_str(), dump(nodes[n]->s).c_str());
    }
    std::string t = trace(s);
    std::string nx;
    for (auto& b : s.bufs) {
        if (b.second->kind) continue;
        for (int v : b.second->win) nx += std::string(1, (char)s.setOf(v).first());
        if (b.second->rmin + (b.second->rmax < 0 ? 1 : b.second->rmax) > 0) nx += "";
    }
    f.trace = "\"" + showText(t) + "\"" + (nx.empty() ? "" : " followed by \"" + showText(nx) + "\"");
    if (!s.bufs.empty() && s.bufs[0].second->rmax == 0) f.trace += " at the end of the input";
    if (s.bufs.empty()) f.trace = showText(t);
    findings.push_back(f);
    if (("," + wanted + ",").find("," + rule + ",") != std::string::npos && !foundAt) foundAt = nowSec();
}

void Interp::runFrom(int nid)
{
    curNode = nid;
    curCtx = nodes[nid]->ctx;
    nodes[nid]->succ.clear();
    if (nodes[nid]->s.topc().stage == -1) cutNode(nid);
    else runState(nodes[nid]->s, 0);
}
void Interp::runState(State first, int phase0)
{
    struct Item { State s; int phase; };
    std::vector<Item> stack;
    stack.push_back({ std::move(first), phase0 });
    while (!stack.empty()) {
        Item it = std::move(stack.back());
        stack.pop_back();
        State s = std::move(it.s);
        int phase = it.phase;
        while (true) {
            if (++steps % 65536 == 0 && (steps > maxSteps || nodes.size() > maxNodes || (deadline > 0 && nowSec() > deadline) || residentMB() > 3000 || (foundAt > 0 && nowSec() > foundAt + 4))) throw Unmodelled { "analysis budget exceeded" };
            State snap;
            bool call = phase == 0 && !s.st.empty() && isa<CallBase>(s.topc().pc);
            bool snapped = phase != 0 || call || isa<LoadInst>(s.topc().pc) || isa<StoreInst>(s.topc().pc);
            if (snapped) snap = s;
            State& orig = snapped ? snap : s;
            try {
                if (phase == 1) {
                    sync(s, !s.st.empty() && s.topc().stage == -1); // recursion starts anew
                    s.choices.clear();
                    s.choiceAt = 0;
                    arrive(s);
                    break;
                }
                s.choiceAt = 0;
                if (phase == 2) {
                    finishState(s);
                    break;
                }
                SR r = step(s);
                s.choices.clear();
                s.choiceAt = 0;
                if (r == CONT) continue;
                if (r == NODE) { prune(s); phase = 1; continue; }
                if (r == CUT) {
                    s.top().stage = -1;
                    prune(s);
                    phase = 1;
                    continue;
                }
                if (r == DONE) { phase = 2; continue; }
            }
            catch (SplitVar& sv) {
                splits++;
                if (profile) splitsAt[(orig.st.empty() ? "" : orig.topc().fn->base) + " " + locOf(orig) + " mode " + std::to_string(orig.sp.mode) + " phase " + std::to_string(phase)]++;
                M256 set = orig.setOf(sv.var), in = set & sv.mask, out = set & ~sv.mask;
                if (in.none() || out.none()) { unmodelled.insert("useless split in " + (orig.st.empty() ? "" : orig.topc().fn->dem)); break; }
                State o = orig;
                o.setSet(sv.var, out);
                stack.push_back({ o, phase });
                s = orig;
                s.setSet(sv.var, in);
                continue;
            }
            catch (SplitRem& sr) {
                splits++;
                if (profile) splitsAt["(length) " + (orig.st.empty() ? "" : orig.topc().fn->base) + " " + locOf(orig) + " mode " + std::to_string(orig.sp.mode) + " phase " + std::to_string(phase)]++;
                State o = orig;
                Buf* b = o.buf(sr.buf);
                sr.k = sr.at - b->base - (i64)b->win.size();
                if (sr.k < 0) { unmodelled.insert("a length that is known is asked for"); break; }
                b->rmin = std::max(b->rmin, sr.k + 1);
                stack.push_back({ o, phase });
                s = orig;
                b = s.buf(sr.buf);
                b->rmax = b->rmax < 0 ? sr.k : std::min(b->rmax, sr.k);
                if (b->rmax < std::max(b->rmin, b->known)) break;
                continue;
            }
            catch (NeedChoice& nc) {
                for (int i = nc.n - 1; i > 0; i--) {
                    State o = orig;
                    o.choices.push_back(i);
                    if (orig.bufs.empty()) o.labels.push_back(nc.what + "=" + std::to_string(i) + "; ");
                    stack.push_back({ o, phase });
                }
                s = orig;
                s.choices.push_back(0);
                if (orig.bufs.empty()) s.labels.push_back(nc.what + "=0; ");
                continue;
            }
            catch (Unmodelled& u) {
                std::string where = orig.st.empty() ? "" : orig.topc().fn->dem + " " + locOf(orig);
                unmodelled.insert(u.msg + " in " + where);
                break;
            }
            catch (Bug& b) {
                report(orig, b.rule, b.msg);
                break;
            }
            catch (Kill&) {
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- the end of a function, recursion
void Interp::finishState(State& s)
{
    if (curCtx == 0) {
        if (!s.bufs.empty()) sync(s);
        if (s.thrown) spec->finishThrow(s, s.excType);
        else spec->finish(s, s.ret);
        return;
    }
    sync(s);
    if (!s.thrown) concretizeAll(s);
    spec->exitCut(s, curCtx);
    addExit(s);
}
void Interp::concretizeAll(State& s)
{
    auto f = [&](const Val& v) { if (v.k == V_BITS) for (auto& b : bitsOf(v)) { Bit n = norm(s, b); if (n.t == 3) throw SplitVar { n.var, maskOf(n.mask) }; } };
    f(s.ret);
    for (auto& o : s.objs) if (!o.second->dead) for (auto& c : o.second->cells) f(c.v);
}
void Interp::addExit(State& s)
{
    Exit e;
    e.excType = s.thrown ? s.excType : "";
    e.sample = trace(s, true);
    State c = s;
    c.labels.clear();
    c.progress = false;
    auto fr = std::make_shared<Frame>();
    fr->tmp.push_back(c.ret);
    c.st.push_back(fr);
    c.ret = Val();
    e.key = e.excType + "|" + exactKey(c);
    e.consumed = c.bufs.empty() ? false : c.bufs[0].second->base > 0;
    for (auto& x : ctxs[curCtx].exits) if (x.key == e.key) return;
    e.s = c;
    ctxs[curCtx].exits.push_back(e);
    for (int n : ctxs[curCtx].callers) tasks.push_back({ n, curCtx, (int)ctxs[curCtx].exits.size() - 1 });
}
// The callee's initial state: what is reachable from the arguments.
State Interp::entryOf(const State& c, std::vector<int>& map, Function*& F)
{
    State s = c;
    const auto& cb = *cast<CallBase>(s.topc().pc);
    F = cb.getCalledFunction();
    std::vector<Val> args;
    for (auto& a : cb.args()) args.push_back(eval(s, a.get()));
    LiveRefs lr;
    lr.id = s.bufs.empty() ? -1 : s.bufs[0].first;
    for (auto& a : args) visitRefs(a, lr);
    while (!lr.q.empty()) {
        int o = lr.q.back();
        lr.q.pop_back();
        const Obj* x = s.objc(o);
        if (!x || x->dead) continue;
        map.push_back(o);
        if (x->owner) lr.obj(x->owner);
        for (auto& q : x->cells) visitRefs(q.v, lr);
    }
    std::sort(map.begin(), map.end());
    State e;
    e.bufs = s.bufs;
    e.vars = s.vars;
    e.toks = s.toks;
    e.nextId = s.nextId;
    e.fuzzy = s.fuzzy;
    for (int o : map) {
        auto n = std::make_shared<Obj>(*s.objc(o));
        n->kind = 2;
        n->tag = 0;
        n->written = false;
        e.objs.push_back({ o, n });
    }
    spec->enterCut(e, s);
    // positions start at 0 in the callee
    for (auto& b : e.bufs) {
        b.second = std::make_shared<Buf>(*b.second);
        b.second->ctx = true;
    }
    Renamer rn;
    for (auto& o : e.objs) rn.objs[o.first] = o.first;
    for (auto& b : e.bufs) rn.bufs[b.first] = b.first;
    for (auto& v : e.vars) rn.vars[v.first] = v.first;
    if (!e.bufs.empty()) {
        i64 base = e.bufs[0].second->base;
        for (i64 p : lr.poss) rn.pos[{ e.bufs[0].first, p }] = p - base;
        for (auto& o : e.bufs[0].second->old) o.first -= base;
        e.bufs[0].second->base = 0;
    }
    for (auto& o : e.objs) for (auto& x : o.second->cells) x.v = rn.val(x.v);
    for (auto& a : args) a = rn.val(a);
    pushFrame(e, info(F), args);
    return e;
}
void Interp::cutNode(int nid)
{
    Function* F = nullptr;
    std::vector<int> map;
    State c = nodes[nid]->s;
    spec->checkCut(c, curCtx);
    State e = entryOf(c, map, F);
    std::string key = F->getName().str() + "|" + exactKey(e);
    auto it = ctxIndex.find(key);
    int id;
    if (it == ctxIndex.end()) {
        id = (int)ctxs.size();
        ctxIndex[key] = id;
        ctxs.emplace_back();
        ctxs[id].F = F;
        ctxs[id].entry = e;
        ctxs[id].parentNode = nid;
        int sn = curNode, sc = curCtx;
        curNode = -1;
        curCtx = id;
        arrive(e);
        curNode = sn;
        curCtx = sc;
    }
    else id = it->second;
    auto& cx = ctxs[id];
    nodes[nid]->callCtx = id;
    if (std::find(cx.callers.begin(), cx.callers.end(), nid) == cx.callers.end()) cx.callers.push_back(nid);
    for (size_t i = 0; i < cx.exits.size(); i++) tasks.push_back({ nid, id, (int)i });
}
void Interp::resume(int nid, int ctx, int ei)
{
    if (nodes[nid]->callCtx != ctx) return; // the caller has changed since
    curNode = nid;
    curCtx = nodes[nid]->ctx;
    const Exit x = ctxs[ctx].exits[ei];
    State c = nodes[nid]->s;
    std::vector<int> map;
    Function* F = nullptr;
    State dummy = entryOf(c, map, F);
    Renamer rn;
    // objects
    std::vector<int> xo;
    for (auto& o : x.s.objs) if (o.second->kind == 2) xo.push_back(o.first);
    if (xo.size() != map.size()) { unmodelled.insert("objects of a recursive call"); return; }
    for (size_t k = 0; k < map.size(); k++) rn.objs[xo[k]] = map[k];
    for (auto& o : x.s.objs) if (o.second->kind != 2) rn.objs[o.first] = c.newObj(o.second->size, o.second->kind);
    // variables
    i64 nbase = 0;
    if (!c.bufs.empty()) {
        int id = c.bufs[0].first;
        const Buf& xb = *x.s.bufs[0].second;
        rn.bufs[x.s.bufs[0].first] = id;
        Buf* b = c.buf(id);
        if (x.consumed) {
            nbase = b->base + (1 << 16);
            // positions the caller keeps
            LiveRefs lr = liveRefs(c, id);
            for (i64 p : lr.poss) if (p == b->base && !b->win.empty()) { b->old.push_back({ p, b->win[0] }); break; }
            b->win.clear();
            for (int v : xb.win) { int nv = c.newVar(x.s.setOf(v)); rn.vars[v] = nv; b->win.push_back(nv); }
            b->base = nbase;
            b->rmin = b->known = xb.rmin;
            b->rmax = xb.rmax;
        }
        else {
            nbase = b->base;
            for (size_t i = 0; i < xb.win.size(); i++) {
                M256 m = x.s.setOf(xb.win[i]);
                if (i < b->win.size()) {
                    M256 n = c.setOf(b->win[i]) & m;
                    if (n.none()) return;
                    c.setSet(b->win[i], n);
                    rn.vars[xb.win[i]] = b->win[i];
                }
                else {
                    int nv = c.newVar(m);
                    rn.vars[xb.win[i]] = nv;
                    b->win.push_back(nv);
                    b->rmin = std::max<i64>(b->rmin - 1, 0);
                    b->known = std::max<i64>(b->known - 1, 0);
                    if (b->rmax == 0) return;
                    if (b->rmax > 0) b->rmax--;
                }
            }
            i64 extra = (i64)b->win.size() - (i64)xb.win.size();
            if (extra < 0) extra = 0;
            b->rmin = std::max(b->rmin, xb.rmin - extra);
            if (xb.rmax >= 0) { i64 m = xb.rmax - extra; if (m < 0) return; b->rmax = b->rmax < 0 ? m : std::min(b->rmax, m); }
            if (b->rmax >= 0 && b->rmin > b->rmax) return;
        }
        // positions of the exit
        i64 xbase = xb.base;
        struct PC : RefVisitor
        {
            std::set<i64> p;
            void obj(int) override { }
            void buf(int) override { }
            void var(int) override { }
            void pos(int, i64 q) override { p.insert(q); }
        } pc;
        for (auto& o : x.s.objs) for (auto& q : o.second->cells) visitRefs(q.v, pc);
        for (auto& v : x.s.st.back()->tmp) visitRefs(v, pc);
        for (i64 p : pc.p) {
            if (p == UNKPOS || isEndPos(p)) continue;
            if (p >= xbase) rn.pos[{ x.s.bufs[0].first, p }] = nbase + (p - xbase);
            else rn.pos[{ x.s.bufs[0].first, p }] = -(1ll << 40); // lost
        }
    }
    std::sort(c.vars.begin(), c.vars.end(), [](auto& a, auto& b) { return a.first < b.first; });
    auto fix = [&](Val v) {
        v = rn.val(v);
        if (v.isPtr(P_BUF) && v.b == -(1ll << 40)) return mkPtr(P_TOP, 0);
        return v;
    };
    for (auto& o : x.s.objs) {
        Obj* t = c.obj(rn.objs[o.first]);
        if (!t) continue;
        t->dead = o.second->dead;
        t->cells = o.second->cells;
        t->written |= o.second->written;
        for (auto& q : t->cells) q.v = fix(q.v);
    }
    c.toks = x.s.toks;
    Val ret = fix(x.s.st.back()->tmp[0]);
    c.labels.clear();
    c.labels.push_back(x.sample);
    c.progress = x.consumed;
    c.fuzzy |= x.s.fuzzy;
    c.top().stage = 0;
    try { spec->resumeCut(c, x.s, x.consumed); }
    catch (Kill&) { return; }
    catch (Bug& b) { report(c, b.rule, b.msg); return; }
    if (!x.excType.empty()) {
        c.excType = x.excType;
        c.excObj = x.s.excObj ? rn.O(x.s.excObj) : c.newObj(16, 3);
        SR r = unwind(c);
        runState(c, r == DONE ? 2 : r == NODE ? 1 : 0);
        return;
    }
    const Instruction* ci = c.topc().pc;
    if (!ci->getType()->isVoidTy()) setSlot(c, ci, ret);
    if (auto* inv = dyn_cast<InvokeInst>(ci)) jump(c, inv->getNormalDest());
    else c.top().pc = ci->getNextNode();
    prune(c);
    runState(c, 1);
}
void Interp::start(State s)
{
    ctxs.emplace_back();
    curCtx = 0;
    curNode = -1;
    arrive(s);
}
void Interp::solve()
{
    auto better = [&](const Node& a, const Node& b) {
        if (breadth && a.dist != b.dist) return a.dist < b.dist;
        if (a.ctx != b.ctx) return a.ctx > b.ctx;
        if (a.hot != b.hot) return a.hot < b.hot;
        size_t n = std::min(a.s.st.size(), b.s.st.size());
        for (size_t i = 0; i < n; i++) {
            auto &x = *a.s.st[i], &y = *b.s.st[i];
            if (x.fn != y.fn) return x.fn->dem < y.fn->dem;
            int p = x.fn->rpo[x.bb], q = y.fn->rpo[y.bb];
            if (p != q) return p < q;
            if (x.pc != y.pc) return x.pc->comesBefore(y.pc);
        }
        if (a.s.st.size() != b.s.st.size()) return a.s.st.size() > b.s.st.size();
        return false;
    };
    auto order = [&](int a, int b) {
        const Node &x = *nodes[a], &y = *nodes[b];
        if (better(x, y)) return true;
        if (better(y, x)) return false;
        return a < b;
    };
    std::set<int, decltype(order)> open(order);
    try {
        while (true) {
            for (int i : queue) open.insert(i);
            queue.clear();
            int best = open.empty() ? -1 : *open.begin();
            if (foundAt > 0 && nowSec() > foundAt + 2) { stopped = true; unmodelled.insert("stopped after a finding"); break; }
            if (best >= 0 && (tasks.empty() || (!breadth && nodes[best]->ctx > 0))) {
                open.erase(open.begin());
                nodes[best]->queued = false;
                runFrom(best);
                continue;
            }
            if (!tasks.empty()) {
                auto t = tasks.front();
                tasks.pop_front();
                resume(t[0], t[1], t[2]);
                continue;
            }
            break;
        }
    }
    catch (Unmodelled& u) { unmodelled.insert(u.msg); }
}
// Every cycle of the state graph must consume input.
void Interp::checkProgress()
{
    size_t n = nodes.size();
    std::vector<int> color(n, 0);
    for (size_t r = 0; r < n; r++) {
        if (color[r]) continue;
        std::vector<std::pair<int, size_t>> st { { (int)r, 0 } };
        color[r] = 1;
        while (!st.empty()) {
            auto& t = st.back();
            auto& sc = nodes[t.first]->succ;
            if (t.second == sc.size()) { color[t.first] = 2; st.pop_back(); continue; }
            auto e = sc[t.second++];
            if (e.second) continue;
            if (color[e.first] == 1) {
                curNode = e.first;
                curCtx = nodes[e.first]->ctx;
                report(nodes[e.first]->s, "progress", "a loop can go round without consuming input");
                continue;
            }
            if (!color[e.first]) { color[e.first] = 1; st.push_back({ e.first, 0 }); }
        }
    }
}

static std::string showVal(const State& s, const Val& v)
{
    static const char* VKN[] = { "undef", "int", "bits", "ptr", "agg", "diff", "tok", "str", "vec", "map", "top", "sz", "cnt", "stream" };
    static const char* PKN[] = { "null", "obj", "buf", "func", "glob", "sd", "it", "top" };
    static const char* SKN[] = { "const", "any", "input", "raw", "trans", "den", "opq", "out", "cat" };
    static const char* CKN[] = { "empty", "any", "built", "den", "seq" };
    auto pos = [](i64 p) { return p == UNKPOS ? std::string("?") : isEndPos(p) ? "END+" + std::to_string(p - ENDPOS) : std::to_string(p); };
    std::string r = VKN[v.k];
    if (v.k == V_PTR) r += std::string(":") + PKN[v.pk] + " " + std::to_string(v.a) + " " + pos(v.b) + (v.c ? " " + pos(v.c) : "");
    else if (v.k == V_INT) r += std::to_string(v.w) + " " + std::to_string(v.a);
    else if (v.k == V_DIFF) r += " " + std::to_string(v.a) + ":" + pos(v.b) + ".." + pos(v.c) + "+" + std::to_string(v.d);
    else if (v.k == V_BITS) { r += "<"; for (auto& b : bitsOf(v)) r += b.t == 0 ? "0" : b.t == 1 ? "1" : b.t == 2 ? "?" : "v" + std::to_string(b.var) + "/" + std::to_string(b.mask) + " "; r += ">"; }
    else if (v.k == V_AGG) { r += "{"; for (auto& x : aggOf(v)) r += showVal(s, x) + ","; r += "}"; }
    else if (v.k == V_STR || v.k == V_SZ) { auto& c = strC(v); r += std::string(" ") + SKN[c.k] + " '" + c.text + "' " + pos(c.p) + ".." + pos(c.q) + "+" + std::to_string(c.d); }
    else if (v.k == V_VEC || v.k == V_MAP || v.k == V_CNT) { auto& c = conC(v); r += std::string(" ") + CKN[c.k] + " d" + std::to_string(c.d) + (c.behind ? " behind " : " ") + c.text; for (auto& g : c.segs) r += " [" + std::to_string(g.id) + " " + g.how + " " + g.key + "]"; }
    else if (v.k == V_TOK) r += " " + std::to_string(v.a) + " " + std::to_string(v.b);
    return r;
}
std::string Interp::dump(const State& s)
{
    std::string r;
    for (auto& f : s.st) {
        if (!f->fn) { for (auto& v : f->tmp) r += "    ret " + showVal(s, v) + "\n"; continue; }
        r += " frame " + f->fn->dem.substr(0, 100) + " stage " + std::to_string(f->stage) + " bb " + (f->bb ? f->bb->getName().str() : "") + "\n";
        for (auto& sl : f->fn->slot) if ((size_t)sl.second < f->env.size() && f->env[sl.second].k != V_UNDEF) {
            std::string n;
            raw_string_ostream os(n);
            sl.first->printAsOperand(os, false);
            r += "    " + n + " = " + showVal(s, f->env[sl.second]) + "\n";
        }
        for (auto& v : f->tmp) r += "    tmp " + showVal(s, v) + "\n";
    }
    for (auto& o : s.objs) {
        r += " obj " + std::to_string(o.first) + " kind " + std::to_string(o.second->kind) + " size " + std::to_string(o.second->size) + (o.second->dead ? " dead" : "") + (o.second->written ? " written" : "") + ":";
        for (auto& c : o.second->cells) r += " [" + std::to_string(c.off) + "," + std::to_string(c.size) + "]=" + showVal(s, c.v);
        r += "\n";
    }
    for (auto& b : s.bufs) {
        r += " buf " + std::to_string(b.first) + " base " + std::to_string(b.second->base) + " win";
        for (int v : b.second->win) r += " v" + std::to_string(v) + setStr(s.setOf(v));
        r += " rem " + std::to_string(b.second->rmin) + ".." + std::to_string(b.second->rmax) + " old";
        for (auto& p : b.second->old) r += " " + std::to_string(p.first) + ":v" + std::to_string(p.second) + setStr(s.setOf(p.second));
        r += "\n";
    }
    r += " spec mode " + std::to_string(s.sp.mode) + " aux " + std::to_string(s.sp.aux) + " " + std::to_string(s.sp.aux2) + " cm " + std::to_string(s.sp.cm);
    for (auto& f : s.sp.fr) { r += std::string(" (") + (char)f.type + " n" + std::to_string(f.n) + " pend " + (f.pend ? (char)f.pend : '-'); for (i64 p : { f.ps, f.pe, f.ks, f.ke }) r += " " + (p == UNKPOS ? std::string("?") : std::to_string(p)); r += ")"; }
    for (i64 x : s.sp.x) r += " " + (x == UNKPOS ? std::string("?") : std::to_string(x));
    r += "\n";
    for (auto& t : s.toks) r += " tok " + std::to_string(t.first) + "=" + std::to_string(t.second);
    if (s.excObj) r += " exc " + s.excType;
    return r + "\n";
}

#pragma once
#include "core.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <deque>
#include <queue>

struct FnInfo
{
    llvm::Function* F = nullptr;
    std::string dem;    // demangled, normalised
    std::string cls;    // enclosing scope, normalised
    std::string base;   // function name without template arguments
    std::string params; // parameter list, normalised
    bool isConst = false;
    bool analysed = false;
    int model = -1;     // handler index; -2 none
    bool head = false;  // recursion head: calls are summarised
    int nslots = 0;
    llvm::DenseMap<const llvm::Value*, int> slot;
    llvm::DenseMap<const llvm::BasicBlock*, int> rpo;
    llvm::DenseMap<const llvm::BasicBlock*, llvm::BitVector> liveIn;
    llvm::DenseMap<const llvm::Instruction*, llvm::BitVector> liveAfter; // calls
    u64 visits = 0;
};

struct Finding
{
    std::string rule, msg, fn, loc, trace;
};

struct Interp;
struct Spec
{
    Interp* I = nullptr;
    virtual ~Spec() {}
    // consume the byte at buf.base (its variable is var); may throw SplitVar
    virtual void retire(State&, int, i64, int) {}
    virtual bool pin(State&, int, i64) { return false; }
    virtual bool keep(State&, int, i64) { return false; } // however long ago it was passed
    virtual bool scanning(State&) { return false; } // inside a string, where blocks are looked at ahead
    virtual void tidy(State&) { }
    virtual bool over(State&) { return false; } // nothing that follows matters
    // string building
    virtual StrC appendRange(State& s, const StrC& c, int buf, i64 p, i64 q);
    virtual StrC appendByte(State& s, const StrC& c, const Val& byte);
    virtual StrC appendStr(State& s, const StrC& c, const StrC& t);
    virtual bool popBack(State& s, StrC& c) { return false; }
    virtual bool fill(char byte, StrC& c) { return false; } // an unknown number of bytes
    virtual bool emptyText(State& s, const StrC& c, bool& r) { return false; }
    // containers of values; the element is at e
    virtual ConC vecPush(State&, const ConC& c, const Val& e);
    virtual bool mapEmplace(State&, ConC& c, const StrC& key, const Val& e);
    // recursion
    virtual void enterCut(State& callee, const State& caller);
    virtual void checkCut(State& caller, int ctx) {}
    virtual void exitCut(State& calleeExit, int ctx) {}
    virtual void resumeCut(State& caller, const State& exit, bool consumed) {}
    // end of the analysed function
    virtual void finish(State&, const Val& ret) {}
    virtual void finishThrow(State&, const std::string& type) {}
    virtual Val numCompare(State&, unsigned, const Val&, const Val&) { return mkTop(1); }
    virtual int textEq(State&, const StrC&, const StrC&) { return -1; }
    // harness functions
    virtual bool call(State&, const std::string& name, const llvm::CallBase&, std::vector<Val>& args, Val& ret) { return false; }
};

enum MR { M_NONE, M_RET, M_THROW, M_AGAIN };

struct Node
{
    State s;
    int ctx = 0;
    std::vector<Val> sc;
    bool queued = false, fresh = true;
    int parent = -1;
    int dist = 0; // bytes of input on the way here
    std::string label;
    std::vector<std::pair<int, bool>> succ; // node, progress
    int callCtx = -1;                       // for call nodes
    i64 hot = 0;                            // how far the program is ahead of the specification
};
struct Exit
{
    State s; // canonical; the objects of the entry are its objects of kind 2, in order
    std::string key;
    std::string excType;
    bool consumed = false;
    std::string sample;
};
struct Ctx
{
    llvm::Function* F = nullptr;
    State entry;
    std::string key;
    std::vector<Exit> exits;
    std::vector<int> callers; // call nodes
    int parentNode = -1;
    std::string how;
};

struct Interp
{
    llvm::Module& M;
    const llvm::DataLayout& DL;
    Spec* spec;
    std::unordered_map<const llvm::Function*, FnInfo*> fns;
    std::vector<const llvm::GlobalVariable*> globs;
    std::unordered_map<const llvm::GlobalVariable*, int> globIds;
    std::vector<llvm::Function*> funcs;
    std::unordered_map<const llvm::Function*, int> funcIds;
    std::set<const llvm::Function*> heads;

    std::vector<Finding> findings;
    std::set<std::string> unmodelled;
    std::set<std::string> findingKeys;
    u64 steps = 0, joins = 0, splits = 0;
    u64 maxSteps = 400000000;
    size_t maxNodes = 180000;
    std::string wanted;     // rules; once one has been found the search ends soon
    double foundAt = 0;
    bool stopped = false;
    bool breadth = false; // shortest inputs first
    double deadline = 0;
    bool allocFails = false;

    std::vector<std::unique_ptr<Node>> nodes;
    std::unordered_map<std::string, std::vector<int>> index;
    std::vector<Ctx> ctxs;
    std::map<std::string, int> ctxIndex;
    bool profile = false;
    std::map<std::string, u64> splitsAt;
    int curNode = -1, curCtx = 0;

    Interp(llvm::Module& m, Spec* sp);
    FnInfo* info(const llvm::Function* f);
    void analyse(FnInfo& f);
    void findHeads(llvm::Function* root);

    // values
    Val eval(State& s, const llvm::Value* v);
    Val constVal(State& s, const llvm::Constant* c);
    void setSlot(State& s, const llvm::Value* v, const Val& x);
    int widthOf(llvm::Type* t) const;
    Val loadTy(State& s, const Val& p, llvm::Type* t);
    Val load(State& s, const Val& p, int bytes, bool wantPtr);
    void store(State& s, const Val& p, const Val& v, int bytes);
    void storeTy(State& s, const Val& p, const Val& v, llvm::Type* t);
    Val ptrAdd(State& s, const Val& p, i64 off);
    Val ptrAddVar(State& s, const Val& p, const Val& idx, i64 scale);
    void copyMem(State& s, const Val& d, const Val& src, i64 n);
    Val concretize(State& s, const Val& v); // throws SplitVar until constant
    int byteAt(State& s, int buf, i64 pos);
    Val globalRead(State& s, int g, i64 off, int bytes, bool wantPtr);
    int globalObj(State& s, int g);
    Obj& objRef(State& s, const Val& p, bool write, const char* what);

    // operations
    Val binop(State& s, unsigned op, const Val& a, const Val& b, int w);
    Val binLanes(State& s, unsigned op, const Val& a, const Val& b, int w, int lane);
    bool findByte(State& s, const StrC& c, int byte, Val& ret);
    Val numberCompare(State& s, unsigned pred, const Val& a, const Val& b);
    Val icmp(State& s, unsigned pred, const Val& a, const Val& b, int w);
    Val icmpLanes(State& s, unsigned pred, const Val& a, const Val& b, int w, int lane);
    bool truth(State& s, const Val& c, const char* what = "branch"); // splits
    int choose(State& s, int n, const std::string& what);
    int guess(State& s, int n, const std::string& what) { s.fuzzy = true; return choose(s, n, what); } // on an unknown value
    bool decideTok(State& s, i64 id, const std::string& what);
    Bit bitAnd(State& s, Bit a, Bit b);
    Bit bitXor(State& s, Bit a, Bit b);
    Bit bitOr(State& s, Bit a, Bit b);
    Bit bitNot(Bit a);
    bool pointwise(State& s, const Val& a, const Val& b, int wout, const std::function<u64(u64, u64)>& f, Val& out);

    // control
    enum SR { CONT, NODE, DONE, CUT };
    SR step(State& s);
    SR doCall(State& s, const llvm::CallBase& cb);
    SR jump(State& s, const llvm::BasicBlock* to);
    SR retValue(State& s, const Val& v);
    SR unwind(State& s);
    void pushFrame(State& s, FnInfo* f, const std::vector<Val>& args);
    void throwType(State& s, const std::string& type);
    bool typeMatches(const std::string& t, const std::string& c);
    void prune(State& s);
    bool sync(State& s, bool all = false);
    i64 hotPos(State& s, int buf);
    void arrive(State& s);
    void runFrom(int node);
    void runState(State first, int phase);
    void finishState(State& s);
    void concretizeAll(State& s);
    void addExit(State& s);
    State entryOf(const State& c, std::vector<int>& map, llvm::Function*& F);
    void cutNode(int nid);
    void resume(int callNode, int ctx, int exitIdx);
    std::deque<std::array<int, 3>> tasks;
    std::vector<int> queue;
    void report(State& s, const std::string& rule, const std::string& msg);
    std::string trace(const State& s, bool own = false);
    std::string locOf(const State& s);
    std::string dump(const State& s);
    void solve();
    void start(State s);
    void checkProgress();

    // models
    MR model(State& s, const llvm::CallBase& cb, FnInfo& f, std::vector<Val>& args, Val& ret);
    MR intrinsic(State& s, const llvm::CallBase& cb, llvm::Function* F, std::vector<Val>& args, Val& ret);
    // strings
    StrC strAt(State& s, const Val& p);
    void putStr(State& s, const Val& p, const StrC& c);
    StrC textOf(State& s, const Val& ptr, const Val& len); // [ptr, ptr+len)
    StrC textRange(State& s, const Val& b, const Val& e);
    StrC cstr(State& s, const Val& p);
    ConC conAt(State& s, const Val& p, VK k);
    void putCon(State& s, const Val& p, VK k, const ConC& c);
    void putConQuiet(State& s, const Val& p, VK k, const ConC& c);
    Val elemBegin(State& s, const Val& self, VK k);
    Val elemEnd(State& s, const Val& self, VK k);
    bool elemIsEnd(State& s, int e);
    Val elemNext(State& s, int e);
    int elemSame(State& s, int a, int b);
    void countLoop(State& s);
    void indices(State& s);
    int idxSize(State& s, const Val& i, i64 more);
    void elemUse(State& s, int e);
    void entityValue(State& s, int e, int voff, int k, int id);
    int isEntity(State& s, const Val& p, int e);
    bool elemPush(State& s, ConC& c, const Val& slot, const StrC* key, bool over = false);
    bool indexPhis = false;     // loops may go over the input by index
    bool explicitElems = false; // containers are known element by element where they are put together that way
    i64 fact(State& s, int e, int key, i64 dflt);
    void setFact(State& s, int e, int key, i64 v);
    int decide(State& s, int e, int key, int n, const std::string& what);
    int identity(State& s, int e);
    bool sizeIs(State& s, int e, unsigned pred, i64 n);
    bool isEmptyEntity(State& s, int e);
    int elementEntity(State& s, int ghost, i64 idx, const StrC* key);
    bool sameText(State& s, const StrC& a, const StrC& b);
    int newSlot(State& s, const Val& self, VK k);
    Val ghostBegin(State& s, const Val& self, VK k, const ConC& c);
    void settle(State& s, const Val& self, VK k);
    static ConC ghostContent(int e);
    int changed(State& s, int owner, int off);
    int holds(State& s, const Val& self, VK k, const std::vector<Seg>& want);
    void appendElem(State& s, const Val& self, VK k, ConC& c, int el);
    void copyValue(State& s, const Val& p, int el, int off);
    ConC copyContent(State& s, const Val& from, VK k, const Val& to);
    ConC moveContent(State& s, const Val& from, VK k, const Val& to);
    Val mapFind(State& s, const Val& self, const StrC& key);
    Val vecAt(State& s, const Val& self, const Val& idx);
    Val slotFor(State& s, const Val& self, int ghost, i64 idx, i64 pos);
    int tokSize(State& s, int e, const Val& idx);
    bool tokBelow(State& s, int e, const Val& idx);
    int sameContent(State& s, const Val& a, const Val& b, VK k);
    int entEqual(State& s, int g, int h);
    bool mayFail(State& s, const char* what); // an allocation fails here
    MR vecModel(State& s, const llvm::CallBase& cb, FnInfo& f, std::vector<Val>& a, Val& ret);
    MR mapModel(State& s, const llvm::CallBase& cb, FnInfo& f, std::vector<Val>& a, Val& ret);
    llvm::Function* constructOf(FnInfo& f);
    bool isEmptyStr(State& s, const StrC& c);
    bool isEmptyCon(State& s, const ConC& c);

    // layout of json types
    struct Layout
    {
        bool ok = false;
        int size = 0, tagOff = 0, tagSize = 0, varOff = 0, idxOff = 0;
    } lay;
    std::map<std::string, int> kinds; // enumerators of value_type
    int altStr = 0, altArr = 1, altObj = 2;
    void findLayout();
};
std::string demangleNorm(const std::string& s);

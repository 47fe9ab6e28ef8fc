// The specification automaton of the two input languages and what an accepted text denotes.
#pragma once
#include "interp.h"
struct SpecParse : Spec
{
    bool jsonc = false;
    SpecParse(bool c) : jsonc(c) {}
    enum { VAL, VALEND, NEXT, KEY, KEYEND, COLON, STR, NUM, LIT, END, ANY, DEAD, OVER };
    enum { EV_START = 1, EV_DONE, EV_POP, EV_DEAD };
    struct Ev { int k, d, kind; bool operator==(const Ev& o) const { return k == o.k && d == o.d && kind == o.kind; } };
    u64 verdicts = 0, accepts = 0, rejects = 0, pushes = 0, emplaces = 0, cuts = 0, appends = 0;

    void init(State& s);
    void stepByte(SpecS& sp, int b, i64 pos, std::vector<Ev>& ev) const;
    void apply(State& s, const std::vector<Ev>& ev);
    void forget(State& s, const std::function<bool(StrC&)>& fs, const std::function<bool(ConC&)>& fc);
    void settle(State& s);
    void lose(State& s, bool first);
    void hopeless(State& s, bool split);
    void tidy(State& s) override { if (!s.bufs.empty()) hopeless(s, false); }
    void kill(SpecS& sp, std::vector<Ev>& ev) const;
    void retireOne(State& s, int buf);
    void retireTo(State& s, int buf, i64 q);
    int minComplete(const SpecS& sp) const;
    bool denotes(State& s, const Val& p, int kind, i64 ps, i64 pe, std::string& why);
    void verdict(State& s, bool accept, const Val& p);
    bool unit(State& s, i64 F, std::vector<std::vector<Bit>>& out, int& len);

    void retire(State&, int, i64, int) override;
    bool pin(State&, int, i64) override;
    bool scanning(State& s) override { return s.sp.mode == STR; }
    bool over(State& s) override { return s.sp.mode == DEAD; }
    StrC appendRange(State& s, const StrC& c, int buf, i64 p, i64 q) override;
    StrC appendByte(State& s, const StrC& c, const Val& byte) override;
    StrC appendStr(State& s, const StrC& c, const StrC& t) override;
    ConC vecPush(State&, const ConC& c, const Val& e) override;
    bool mapEmplace(State&, ConC& c, const StrC& key, const Val& e) override;
    void enterCut(State& callee, const State& caller) override;
    void checkCut(State& caller, int ctx) override;
    void exitCut(State& calleeExit, int ctx) override;
    void resumeCut(State& caller, const State& exit, bool consumed) override;
    void finish(State&, const Val& ret) override;
    void finishThrow(State&, const std::string& type) override;
    bool call(State&, const std::string& name, const llvm::CallBase&, std::vector<Val>& args, Val& ret) override;
};

// What escaping writes: each byte of the input in order, raw where that is allowed, or as an escape that stands for it.
#pragma once
#include "interp.h"
struct SpecEscape : Spec
{
    // S_OUT: buf and p: the input before p has been written; text: an escape that has been begun; q: after the prefix; back: bytes of the suffix
    // written; d: something unknown is in front.  s.sp.x[0]: the first byte passed, but not written, that must not be written raw; x[1]: the start
    std::string prefix, suffix;
    int in = -1;
    u64 musts = 0, appends = 0;
    void retire(State&, int, i64, int) override;
    bool pin(State&, int, i64) override;
    bool scanning(State&) override { return false; }
    StrC appendRange(State& s, const StrC& c, int buf, i64 p, i64 q) override;
    StrC appendByte(State& s, const StrC& c, const Val& byte) override;
    StrC appendStr(State& s, const StrC& c, const StrC& t) override;
    bool emptyText(State& s, const StrC& c, bool& r) override;
    void finishThrow(State&, const std::string& type) override;
    bool call(State&, const std::string& name, const llvm::CallBase&, std::vector<Val>& args, Val& ret) override;
    StrC begin(bool prefixed);
    bool atEnd(State& s, i64 p);
    bool covered(State& s, i64 pos);
    int varAt(State& s, i64 p);
    bool is(State& s, int var, const M256& m);
    StrC escape(State& s, StrC c);
};

// Programs over unknown values (witness/values.cpp): what the intrinsic functions in witness/harness.h mean.
#pragma once
#include "interp.h"
struct SpecHarness : Spec
{
    u64 musts = 0, undecided = 0;
    std::set<std::string> rows; // assertions met
    void init(State& s);
    int entity(State& s, i64 id); // by the number it has in the program
    int newEntity(State& s, i64 id, int tag);
    int interval(State& s, int e, int lo, int hi, const std::string& what);
    Val numCompare(State& s, unsigned pred, const Val& v, const Val& k) override;
    int numClass(State& s, int e, const std::string& type);
    StrC text(State& s, const Val& p);
    int textEq(State&, const StrC&, const StrC&) override;
    bool numbers(State& s, FnInfo& f, std::vector<Val>& a, Val& ret); // spec_number.cpp
    Val number(int e, const std::string& type, int w);
    int consistent(State& s, const Val& p, std::string& why, int depth);
    bool collect(State& s, const Val& p, std::set<int>& out);
    StrC appendStr(State& s, const StrC& c, const StrC& t) override;
    StrC appendByte(State& s, const StrC& c, const Val& byte) override;
    void finish(State&, const Val& ret) override { }
    void finishThrow(State&, const std::string& type) override;
    bool call(State&, const std::string& name, const llvm::CallBase&, std::vector<Val>& args, Val& ret) override;
};

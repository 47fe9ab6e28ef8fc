// Reading from a stream: what it delivers is the input buffer; it may fail at every step.
#pragma once
#include "spec_harness.h"
struct SpecStream : SpecHarness
{
    // S.sp.aux: what stream it is; aux2: flags; cm: what was parsed; mode: whether the parser gave a value
    enum { GOOD = 1, SHORT, NOSEEK, BROKEN, READFAIL, DIR, CLOSED };
    enum { FAIL = 1, BAD = 2, END = 4, ATEND = 8 };
    int in = -1, obj = -1;
    bool file = false;
    void init(State& s);
    bool keep(State&, int, i64 pos) override { return pos < 3; }
    bool scanning(State&) override { return false; }
    bool call(State&, const std::string& name, const llvm::CallBase&, std::vector<Val>& args, Val& ret) override;
    bool fill(char, StrC&) override { return false; }
    void open(State& s, const Val& self, const Val& mode);
    bool atEnd(State& s, i64 p);
    bool starts(State& s, const std::string& t);
    bool strings(State& s, FnInfo& f, std::vector<Val>& a, Val& ret);
};

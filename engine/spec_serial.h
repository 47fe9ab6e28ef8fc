// Serialised text: programs that serialise unknown values, and the recursive functions they use, each on its own.
#pragma once
#include "spec_harness.h"
#include <map>
struct SpecSerial : SpecHarness
{
    struct Job
    {
        llvm::Function* F = nullptr;
        std::string shape;            // per argument: V value, A array, O object, S text that is appended to, R result, i number
        std::vector<i64> consts;      // of narrow numbers
        std::vector<int> widths;
        int kind = -1;                // of the value
    };
    std::map<std::string, Job>* jobs = nullptr; // recursive functions met
    Job job;                                    // the one this analysis is about
    std::map<const llvm::Function*, bool> rec;
    u64 contracts = 0;
    bool recursive(const llvm::Function* F);
    void begin(State& s, const Job& j);
    StrC appendByte(State& s, const StrC& c, const Val& byte) override;
    StrC appendStr(State& s, const StrC& c, const StrC& t) override;
    bool popBack(State& s, StrC& c) override;
    bool fill(char byte, StrC& c) override;
    bool emptyText(State& s, const StrC& c, bool& r) override;
    bool call(State&, const std::string& name, const llvm::CallBase&, std::vector<Val>& args, Val& ret) override;
    void finish(State&, const Val& ret) override;
    StrC bad(State& s, const std::string& why);
    StrC start();
    StrC feed(State& s, StrC o, const Tok& t);
    StrC feedChar(State& s, StrC o, char c);
    StrC literal(State& s, StrC o);
    StrC complete(State& s, StrC o, int ent, int kind, const StrC& text);
    std::vector<Tok> toksOf(State& s, const StrC& c, bool& known);
    void valueToks(State& s, const Val& p, char kind, std::vector<Tok>& out, bool& known);
    int isSerial(State& s, StrC c, int e, std::string& why);
    char kindAt(State& s, const Val& p);
};

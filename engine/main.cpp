// json-ai BITCODE MODE... : runs one analysis and prints the result as JSON.
#include "spec_parse.h"
#include "spec_harness.h"
#include "spec_serial.h"
#include "spec_escape.h"
#include "spec_stream.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <chrono>
#include <malloc.h>
#include <cstdio>
#include <cstdlib>
using namespace llvm;

static std::string esc(const std::string& t)
{
    std::string r = "\"";
    for (unsigned char c : t) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
static void output(Interp& in, const std::string& extra)
{
    printf("{\"findings\":[");
    bool first = true;
    for (auto& f : in.findings) {
        printf("%s\n {\"rule\":%s,\"msg\":%s,\"fn\":%s,\"loc\":%s,\"trace\":%s}", first ? "" : ",", esc(f.rule).c_str(), esc(f.msg).c_str(), esc(f.fn).c_str(), esc(f.loc).c_str(), esc(f.trace).c_str());
        first = false;
    }
    printf("],\n\"unmodelled\":[");
    first = true;
    for (auto& u : in.unmodelled) { printf("%s\n %s", first ? "" : ",", esc(u).c_str()); first = false; }
    printf("],\n\"functions\":[");
    first = true;
    for (auto& f : in.fns) if (f.second->visits) { printf("%s\n %s", first ? "" : ",", esc(f.second->dem).c_str()); first = false; }
    size_t exits = 0;
    for (auto& c : in.ctxs) exits += c.exits.size();
    printf("],\n\"states\":%zu,\"contexts\":%zu,\"exits\":%zu,\"steps\":%llu,\"splits\":%llu,\"joins\":%llu%s}\n", in.nodes.size(), in.ctxs.size(), exits,
        (unsigned long long)in.steps, (unsigned long long)in.splits, (unsigned long long)in.joins, extra.c_str());
}
static void debug(Interp& in)
{
    if (!getenv("JSONAI_DEBUG")) return;
    for (auto& x : in.splitsAt) if (x.second > in.splits / 100) fprintf(stderr, "%8llu splits %s\n", (unsigned long long)x.second, x.first.c_str());
    std::map<std::string, std::pair<int, int>> h;
    for (auto& n : in.nodes) {
        std::string k = "ctx" + std::to_string(n->ctx) + " ";
        for (auto& f : n->s.st) { std::string d = f->fn->dem; size_t p = d.rfind("::", d.find("(")); k += (p == std::string::npos ? d : d.substr(p + 2)).substr(0, 40) + " > "; }
        k += in.locOf(n->s) + " mode " + std::to_string(n->s.sp.mode);
        h[k].first++;
        h[k].second = (int)(&n - &in.nodes[0]);
    }
    std::vector<std::pair<int, std::string>> v;
    for (auto& x : h) v.push_back({ x.second.first, x.first + "  e.g. node " + std::to_string(x.second.second) });
    std::sort(v.rbegin(), v.rend());
    for (size_t i = 0; i < v.size() && i < 40; i++) fprintf(stderr, "%6d %s\n", v[i].first, v[i].second.c_str());
    if (getenv("JSONAI_CTX")) for (size_t i = 0; i < in.ctxs.size(); i++) {
        auto& c = in.ctxs[i];
        fprintf(stderr, "=== ctx %zu exits %zu callers %zu\n%s", i, c.exits.size(), c.callers.size(), i ? in.dump(c.entry).c_str() : "");
        if ((int)i == atoi(getenv("JSONAI_CTX"))) for (auto& e : c.exits) fprintf(stderr, "  == exit consumed %d '%s' sample %s\n%s", e.consumed, e.excType.c_str(), e.sample.c_str(), in.dump(e.s).c_str());
    }
    if (const char* g = getenv("JSONAI_GROUP")) {
        int c = 0, step = getenv("JSONAI_STEP") ? atoi(getenv("JSONAI_STEP")) : 1, k = 0;
        for (auto& n : in.nodes) {
            std::string id = "ctx" + std::to_string(n->ctx) + " ";
            for (auto& f : n->s.st) { std::string d = f->fn->dem; size_t p = d.rfind("::", d.find("(")); id += (p == std::string::npos ? d : d.substr(p + 2)).substr(0, 40) + " > "; }
            id += in.locOf(n->s) + " mode " + std::to_string(n->s.sp.mode);
            if (id.find(g) == std::string::npos || k++ % step) continue;
            if (c++ > 60) break;
            fprintf(stderr, "--- %s label %s\n%s", id.c_str(), n->label.c_str(), in.dump(n->s).c_str());
        }
    }
    if (const char* cc = getenv("JSONAI_CHAIN")) {
        int id = in.ctxs[atoi(cc)].parentNode;
        for (int k = 0; id >= 0 && k < 25; k++, id = in.nodes[id]->parent) fprintf(stderr, "--- node %d ctx %d label %s %s\n%s", id, in.nodes[id]->ctx, in.nodes[id]->label.c_str(), in.locOf(in.nodes[id]->s).c_str(), in.dump(in.nodes[id]->s).c_str());
    }
    const char* w = getenv("JSONAI_NODES");
    if (w) for (const char* p = w; *p;) {
        int id = atoi(p);
        while (*p && *p != ',') p++;
        if (*p) p++;
        if (id < 0 || id >= (int)in.nodes.size()) continue;
        auto& n = *in.nodes[id];
        fprintf(stderr, "--- node %d ctx %d parent %d label %s\n%s", id, n.ctx, n.parent, n.label.c_str(), in.dump(n.s).c_str());
    }
}

int main(int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    if (argc < 4) { fprintf(stderr, "usage: json-ai BITCODE FUNCTION SPEC [seconds]\n"); return 2; }
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("json-ai", errs()); return 2; }
    std::string fn = argv[2], spec = argv[3];
    double secs = argc > 4 ? atof(argv[4]) : 600;
    if (spec == "harness") {
        // every program whose name starts like this, or =A,B,C: each on its own
        std::string pre = fn;
        std::set<std::string> exact;
        if (pre[0] == '=') {
            std::string x;
            for (char ch : pre.substr(1) + ",") { if (ch == ',') { exact.insert(x); x.clear(); } else x += ch; }
            pre = "h_";
        }
        printf("{\"programs\":[");
        bool first = true;
        for (auto& G : *M) {
            if (G.isDeclaration() || !G.getName().starts_with(pre) || (!exact.empty() && !exact.count(G.getName().str()))) continue;
            SpecHarness sp;
            Interp in(*M, &sp);
            sp.I = &in;
            in.explicitElems = true;
            in.allocFails = true;
            in.profile = getenv("JSONAI_DEBUG");
            in.maxNodes = 60000;
            in.findLayout();
            in.findHeads(&G);
            in.deadline = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + secs;
            State s;
            sp.init(s);
            in.pushFrame(s, in.info(&G), {});
            in.start(s);
            in.solve();
            debug(in);
            char b[300];
            snprintf(b, sizeof b, ",\"program\":\"%s\",\"musts\":%llu,\"undecided\":%llu,\"rows\":%zu", G.getName().str().c_str(), (unsigned long long)sp.musts, (unsigned long long)sp.undecided, sp.rows.size());
            printf("%s\n", first ? "" : ",");
            output(in, b);
            first = false;
            fflush(stdout);
        }
        printf("]}\n");
        return 0;
    }
    if (spec == "serial") {
        std::map<std::string, SpecSerial::Job> jobs;
        std::set<std::string> done;
        bool first = true;
        auto run = [&](Function* G, const SpecSerial::Job* j) {
            SpecSerial sp;
            sp.jobs = &jobs;
            Interp in(*M, &sp);
            sp.I = &in;
            in.explicitElems = true;
            in.profile = getenv("JSONAI_DEBUG");
            in.maxNodes = 60000;
            in.findLayout();
            in.deadline = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + secs;
            State s;
            sp.init(s);
            if (j) sp.begin(s, *j);
            else in.pushFrame(s, in.info(G), {});
            in.start(s);
            in.solve();
            debug(in);
            std::string b = ",\"program\":\"" + (j ? in.info(j->F)->dem : G->getName().str()) + "\",\"musts\":" + std::to_string(sp.musts) + ",\"undecided\":" + std::to_string(sp.undecided) + ",\"rows\":" + std::to_string(sp.rows.size()) + ",\"contracts\":" + std::to_string(sp.contracts);
            printf("%s\n", first ? "" : ",");
            output(in, b.c_str());
            first = false;
            fflush(stdout);
        };
        printf("{\"programs\":[");
        for (auto& G : *M) if (!G.isDeclaration() && G.getName().starts_with(fn)) run(&G, nullptr);
        for (bool more = true; more;) {
            more = false;
            auto now = jobs;
            for (auto& j : now) if (done.insert(j.first).second) {
                more = true;
                if (j.second.shape.find('V') == std::string::npos) run(nullptr, &j.second);
                else for (int k = 0; k < 6; k++) { auto x = j.second; x.kind = k; run(nullptr, &x); }
            }
        }
        printf("]}\n");
        return 0;
    }
    if (spec == "escape") {
        printf("{\"programs\":[");
        bool first = true;
        for (auto& G : *M) {
            if (G.isDeclaration() || !G.getName().starts_with(fn)) continue;
            SpecEscape sp;
            Interp in(*M, &sp);
            sp.I = &in;
            in.indexPhis = true;
            in.profile = getenv("JSONAI_DEBUG");
            in.maxNodes = 60000;
            in.findLayout();
            in.findHeads(&G);
            in.deadline = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + secs;
            State s;
            int buf = sp.in = s.newBuf(), o = s.newObj(32, 2);
            s.sp = SpecS();
            s.sp.x[1] = 0;
            Obj* obj = s.obj(o);
            if (G.getName().contains("view")) {
                cellPut(*obj, 0, 8, mkDiff(buf, 0, ENDPOS));
                cellPut(*obj, 8, 8, mkPtr(P_BUF, buf, 0));
            }
            else {
                StrC c;
                c.k = S_INPUT;
                c.buf = buf;
                cellPut(*obj, 0, 32, mkStr(c));
            }
            in.pushFrame(s, in.info(&G), { mkPtr(P_OBJ, o, 0) });
            in.start(s);
            in.solve();
            if (in.unmodelled.empty()) in.checkProgress();
            debug(in);
            std::string b = ",\"program\":\"" + G.getName().str() + "\",\"musts\":" + std::to_string(sp.musts) + ",\"undecided\":0,\"rows\":1,\"appends\":" + std::to_string(sp.appends);
            printf("%s\n", first ? "" : ",");
            output(in, b.c_str());
            first = false;
            fflush(stdout);
        }
        printf("]}\n");
        return 0;
    }
    if (spec == "stream") {
        printf("{\"programs\":[");
        bool first = true;
        for (auto& G : *M) {
            if (G.isDeclaration() || !G.getName().starts_with(fn)) continue;
            SpecStream sp;
            Interp in(*M, &sp);
            sp.I = &in;
            in.explicitElems = true;
            in.profile = getenv("JSONAI_DEBUG");
            in.maxNodes = 60000;
            in.findLayout();
            in.findHeads(&G);
            in.deadline = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + secs;
            State s;
            sp.file = G.getName().contains("open");
            sp.init(s);
            in.pushFrame(s, in.info(&G), { mkPtr(P_OBJ, sp.obj, 0) });
            in.start(s);
            in.solve();
            debug(in);
            std::string b = ",\"program\":\"" + G.getName().str() + "\",\"musts\":" + std::to_string(sp.musts) + ",\"undecided\":0,\"rows\":1";
            printf("%s\n", first ? "" : ",");
            output(in, b.c_str());
            first = false;
            fflush(stdout);
        }
        printf("]}\n");
        return 0;
    }
    Function* F = M->getFunction(fn);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no function %s\n", fn.c_str()); return 2; }
    if (spec.compare(0, 6, "parse-") == 0) {
        // parse-strict-string, parse-jsonc-view, ...
        // first by program order, which converges soonest; if that does not get to an end, the shortest inputs first
        std::unique_ptr<SpecParse> sp;
        std::unique_ptr<Interp> first, second;
        auto attempt = [&](std::unique_ptr<Interp>& in, bool breadth, double limit) {
            sp = std::make_unique<SpecParse>(spec.find("jsonc") != std::string::npos);
            in = std::make_unique<Interp>(*M, sp.get());
            sp->I = in.get();
            in->profile = getenv("JSONAI_DEBUG");
            in->breadth = breadth;
            in->wanted = argc > 5 ? argv[5] : "";
            if (breadth) in->maxNodes = 2000000;
            in->findLayout();
            in->findHeads(F);
            in->deadline = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + limit;
            State s;
            int buf = s.newBuf();
            int o = s.newObj(32, 2);
            Obj* obj = s.obj(o);
            if (spec.find("view") != std::string::npos) {
                cellPut(*obj, 0, 8, mkDiff(buf, 0, ENDPOS));
                cellPut(*obj, 8, 8, mkPtr(P_BUF, buf, 0));
            }
            else if (spec.find("vector") != std::string::npos) {
                cellPut(*obj, 0, 8, mkPtr(P_BUF, buf, 0));
                cellPut(*obj, 8, 8, mkPtr(P_BUF, buf, ENDPOS));
                cellPut(*obj, 16, 8, mkPtr(P_BUF, buf, ENDPOS));
            }
            else {
                StrC c;
                c.k = S_INPUT;
                c.buf = buf;
                cellPut(*obj, 0, 32, mkStr(c));
            }
            sp->init(s);
            in->pushFrame(s, in->info(F), { mkPtr(P_OBJ, o, 0) });
            in->start(s);
            in->solve();
            if (in->unmodelled.empty()) in->checkProgress();
            debug(*in);
        };
        attempt(first, false, secs * 0.6);
        Interp* in = first.get();
        if (!in->unmodelled.empty() && !in->stopped) {
            // what the first attempt has found stays
            auto f = std::move(in->findings);
            auto u = std::move(in->unmodelled);
            first.reset();
            malloc_trim(0);
            attempt(second, true, secs * 0.4);
            in = second.get();
            std::set<std::string> have;
            for (auto& x : in->findings) have.insert(x.rule + x.msg + x.loc);
            for (auto& x : f) if (have.insert(x.rule + x.msg + x.loc).second) in->findings.push_back(x);
            in->unmodelled.insert(u.begin(), u.end());
        }
        char b[400];
        snprintf(b, sizeof b, ",\"verdicts\":%llu,\"accepts\":%llu,\"rejects\":%llu,\"pushes\":%llu,\"emplaces\":%llu,\"cuts\":%llu,\"appends\":%llu", (unsigned long long)sp->verdicts, (unsigned long long)sp->accepts,
            (unsigned long long)sp->rejects, (unsigned long long)sp->pushes, (unsigned long long)sp->emplaces, (unsigned long long)sp->cuts, (unsigned long long)sp->appends);
        output(*in, b);
        return 0;
    }
    fprintf(stderr, "unknown analysis\n");
    return 2;
}

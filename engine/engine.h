#pragma once
#include "expr.h"
#include "fp.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Val {
    ER e = nullptr;          // symbolic, or
    u128 c = 0;              // concrete
    std::shared_ptr<std::vector<Val>> agg;
    Val() {}
    Val(u128 v) : c(v) {}
    Val(ER x) { if (x->op == CONST) c = x->val; else e = x; }
};
static inline ER toE(const Val &v, unsigned w) { return v.e ? v.e : C(v.c, w); }

struct Opnd { int slot; Val k; };

struct DInst {
    unsigned op = 0;
    int dst = -1;
    unsigned w = 0, w2 = 0;           // result width, operand width (bits)
    std::vector<Opnd> o;
    const llvm::Instruction *I = nullptr;
    const Fmt *fmt = nullptr, *fmt2 = nullptr;
    int64_t off = 0;                  // GEP: constant part
    std::vector<std::pair<int, uint64_t>> scale; // GEP: operand index, scale; alloca: size
    std::vector<unsigned> scaleW;
    int bb[2] = {-1, -1};
    llvm::Function *callee = nullptr;
    struct DFunc *dcallee = nullptr;
    int ext = -1;                     // external handler
    std::vector<unsigned> vecw;       // vectors: element width; count
    unsigned vn = 0;
    uint64_t size = 0, align = 1;
    std::vector<std::pair<u128, int>> cases;
    unsigned pred = 0;
};
struct DBlock {
    std::vector<DInst> phis;          // o: one operand per predecessor in preds order
    std::vector<std::vector<int>> phiPreds;
    std::vector<DInst> insts;
    uint64_t hits = 0;
};
struct DFunc {
    llvm::Function *F;
    std::string name;
    unsigned nregs = 0, nargs = 0;
    std::vector<DBlock> bbs;
    uint64_t calls = 0;
    bool inRepo = false;
    bool decoded = false;
};

enum { PAGE = 256 };
struct SymByte { ER e; uint32_t idx; };
struct Page {
    uint8_t b[PAGE];
    std::unique_ptr<SymByte[]> s;
    Page() {}
    Page(const Page &o);
};
struct LogEnt { ER off; u128 coff; bool conc; unsigned n; Val v; };
struct Content {
    std::vector<std::shared_ptr<Page>> pages;
    std::vector<LogEnt> log;
    bool useLog = false;
    // Symbolic region
    uint64_t rlo = 0, rhi = 0; unsigned relem = 0, rbits = 0; std::string rname;
};
struct Obj {
    uint64_t size = 0;
    bool readonly = false, heap = false;
    std::string name;
    std::shared_ptr<Content> c;
};
typedef std::shared_ptr<Obj> ObjRef;

struct Frame {
    DFunc *f;
    int bb = 0, ip = 0, prev = -1;
    std::vector<Val> regs;
    std::vector<uint32_t> allocas;
    int retDst = -1;
    bool invoke = false;
    int nbb = -1, ubb = -1;
    std::vector<std::pair<Val, unsigned>> varargs;
};

struct Input { std::string name; ER e; };
struct State {
    std::vector<Frame> stack;
    std::vector<ObjRef> objs;
    std::vector<uint32_t> freeIds;
    std::vector<ER> pc;
    std::unordered_set<ER> facts;
    std::shared_ptr<Model> model;
    std::vector<Input> inputs;
    std::map<std::string, int> names;
    std::vector<std::pair<std::string, Val>> observes;
    std::vector<std::string> regions;
    uint64_t steps = 0;
    unsigned forks = 0;
    bool usesUF = false;
    bool uncertain = false; // the path condition may be unsatisfiable: `model` need not satisfy it
    // exceptions
    Val excObj, excSel;
    std::vector<std::pair<uint64_t, uint64_t>> caught; // object, typeinfo
    std::map<uint64_t, uint64_t> excType;
    uint64_t id = 0;
};
typedef std::shared_ptr<State> SP;

// Abstract interpreter over LLVM IR.
#pragma once
#include "val.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/Analysis/LoopInfo.h>
#include <deque>
#include <set>
#include <optional>

struct Opd { int32_t reg = -1; Val c; };
struct DInst {
  const llvm::Instruction* I = nullptr;
  unsigned op = 0; int32_t dst = -1;
  std::vector<Opd> ops;
  llvm::Type* ty = nullptr;           // accessed / result type
  unsigned bits = 0, obits = 0;       // result bits, operand bits
  bool isFp = false;
  uint32_t loc = 0;                   // /repo location id, 0 if none
  int64_t cst = 0;                    // gep constant / alloca size / predicate
  std::vector<int64_t> scale;         // gep scales
  const llvm::Function* callee = nullptr;
  int model = -1;                     // external model id
};
struct DBlock {
  std::vector<DInst> insts; std::vector<int> succ; int ipdom = -1; int nphi = 0;
  std::vector<int> carried;   // registers used from here on that a cycle avoiding this block may redefine
  std::vector<int> loops;             // enclosing loop headers, innermost first
};
struct DFunc {
  const llvm::Function* F = nullptr; std::vector<DBlock> blocks; int nregs = 0; bool inRepo = false, inHarness = false; std::string name; long calls = 0;
  std::map<std::pair<int,int>, std::vector<Opd>> phiIn;  // (pred, block) -> incoming operands
  std::vector<std::vector<bool>> inLoop;                 // header -> membership
  std::map<int,int> headerIdx;
};
struct Cell { Val v; uint32_t size = 0; uint32_t scope = 0; };
enum class OK : uint8_t { Global, Heap, Stack, Fn, Ext };
struct Object {
  std::map<int64_t, Cell> c; int64_t size = 0; OK kind = OK::Heap; bool alive = true, zero = false, tls = false, constant = false, array = false;
  const llvm::Value* site = nullptr; uint32_t loc = 0; uint32_t birthScope = 0; bool own = false, clone = false;
};
struct Key { uint32_t obj; int64_t off; bool operator<(const Key& o) const { return obj != o.obj ? obj < o.obj : off < o.off; } };
struct Journal { std::map<Key, std::optional<Cell>> old; std::vector<uint32_t> killed; uint32_t objStart; };
struct Lane { Val pc, sel; std::map<Key, std::optional<Cell>> diff; std::set<uint32_t> dead; std::vector<Val> vals; uint32_t objLo = 0, objHi = 0; };
using Lanes = std::map<int, Lane>;     // target block, RET
constexpr int RET = -1, DEAD = -2;
struct Frame { DFunc* f; std::vector<Val> regs; std::vector<uint32_t> allocas; uint32_t baseLoc = 0; const DInst* cur = nullptr; int invDepth = 0; uint32_t invScope = 0; };

struct Violation { std::string kind, msg, where, cond, claimAt, instance; };
struct EntryResult {
  std::string name; std::vector<Violation> viol; std::string undecided; long obligations = 0, discharged = 0, symbolic = 0; long steps = 0, joins = 0, branches = 0, accesses = 0, widened = 0;
  std::set<std::string> funcs; std::map<std::string,long> rules; double secs = 0;
};

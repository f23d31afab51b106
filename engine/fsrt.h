#ifndef FSRT_H
#define FSRT_H
#include <cstdint>
#include <string>
#include <vector>
typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
namespace fs {
struct Node { u32 op, w, a, b, c; u64 imm, cval; i64 lo, hi; Node() : op(0), w(0), a(0), b(0), c(0), imm(0), cval(0), lo(0), hi(0) {} };
struct VarInfo { std::string name; i64 lo; u64 max; u32 node; };
enum { D_BRANCH, D_VALUE, D_ASSERT, D_ASSUME, D_BOUNDS };
struct Decision { int kind; u32 expr; u64 val; u32 site; };
struct Item { int k = -1; u64 notval = ~0ull; u64 hash = 0; std::vector<u64> excl; std::string inputs; };
struct Opts { int jobs = 8; double budget = 60; int queryMs = 10000; u64 maxPaths = 10000000; int verbose = 0; int thorough = 0; int maxViol = 5; int runTimeout = 25; double childSolve = 300; double grace = 20; size_t maxNodes = 4000000, maxDecisions = 60000; };
struct Stats { int paths = 0; size_t decisions = 0, nodes = 0; int diverged = 0, stale = 0, evalMismatch = 0, abandoned = 0, sat = 0, unsat = 0, unknown = 0, assertQ = 0, assertUnsat = 0, flipQ = 0, nodeLimit = 0, decisionLimit = 0, asserts = 0, noise = 0, fpq = 0, skippedFlips = 0; double solverTime = 0, runTime = 0; std::string mismatchInfo; };
extern std::vector<Node> nodes;
extern std::vector<VarInfo> vars;
extern std::vector<Decision> decisions;
extern Opts opts;
extern Stats st;
double fs_now();
void solveFlips(const Item& item, void (*emit)(const std::string&));
}
#endif

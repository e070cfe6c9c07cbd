#pragma once
#include "sim.h"
#include <utility>
namespace sim {
constexpr int NF = 30;  // fibers per run
constexpr u64 NEVER = ~0ULL;
struct Decision {
    u64 idx;
    u32 val;
};
struct Result {
    bool failed{false};
    char cls[48]{0};
    char msg[1600]{0};
    u64 hash{0};
    u64 ilhash{0};  // interleaving hash (scheduling events only)
    u64 steps{0};
    u64 switches{0};  // preemptions and blocking switches
    u64 simtime{0};
    u64 decisions{0};
    u32 fired[F_N]{0};
    u64 probes{0};
    u64 evals{0};
    u64 gaveUp{0};
    u64 accesses{0};
    u32 fibers{0};
};
struct LogEv {
    u64 step;
    u64 time;
    i64 a, b;
    const char* what;
    int fid;
};
extern std::vector<LogEv> evlog;
extern bool wantLog;
// runs one program; decisions either generated from seed (replay==nullptr)
// or taken from the list; recorded decisions are returned in rec
void runOnce(const Scenario& sc, const Program& prog, const Config& cfg,
             u64 seed, const std::vector<Decision>* replay,
             std::vector<Decision>& rec, Result& res);
void runtimeInit();
extern u64 peakArena;
}  // namespace sim

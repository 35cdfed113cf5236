// ctl.hpp - block shared between an episode process and its parent.
#pragma once
#include "sim.hpp"
namespace sim
{
enum { TCAP = 1 << 16, NCTR = 96, COVCAP = 1 << 18, TRACECAP = 1 << 18 };
enum Status { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_DISCARD = 3 };
struct Ctl
{
    int status;
    char sig[200];
    char msg[8192];
    char desc[8192];
    u32 desc_n;
    u64 ev_hash, sched_hash, n_events, total_steps, preempts;
    int nontriv;
    int replay;              // take choices from in[] instead of the PRNG
    int trace;               // keep the readable trace
    u64 seed;
    u32 tape_n[NSTREAMS];
    u32 in_n[NSTREAMS];
    struct { char name[44]; u64 n; } ctr[NCTR];
    u32 trace_n;
    u32 tape[NSTREAMS][TCAP];
    u32 in[NSTREAMS][TCAP];
    char tracebuf[TRACECAP];
    u8 cov[COVCAP];
};
extern Ctl* ctl;
void begin_episode();
u64 cov_guards();
int runner_main(int argc, char** argv);
}

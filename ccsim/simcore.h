// The simulator's core: single-token scheduling of real threads, allocation
// faults and accounting. Compiled without any sanitizer, so that handing the
// token over creates no happens-before edge the race detector could see.
#pragma once
#include <cstddef>
#include <cstdint>

struct SimSwitch { uint32_t step, target; };
enum { SIM_MAXTHREADS = 8, SIM_MAXSWITCH = 1 << 16 };

extern "C" {
// Prepare a run. permille: chance of a switch at a yield point; explicit_sw: schedule to follow instead of drawing.
void sim_setup(uint64_t seed, int nthreads, int permille, uint32_t max_steps, const SimSwitch* explicit_sw, int nsw);
void sim_thread_begin(int id);   // first call of a simulated thread: waits for the token
void sim_thread_end();           // last call: passes the token on
void sim_go();                   // main: start the threads and wait until all have ended
void sim_yield();
void sim_block();                // wait for some other thread's progress
void sim_wake();                 // progress was made: blocked threads try again
uint32_t sim_steps();
int sim_trace(SimSwitch* out, int max);   // switches made
void sim_mask(int on);           // no yield points or faults in between (harness code)
extern void (*sim_fatal)(const char* what);   // deadlock or step limit: reports, does not return

// allocation faults, per operation of the calling thread
void sim_alloc_begin(int64_t fail_at, int from_on);  // fail_at 0: none
void sim_alloc_end();
int64_t sim_alloc_count();      // allocations counted so far in this operation
int64_t sim_alloc_failed();
int64_t sim_alloc_live();       // made by this operation and still alive
void sim_alloc_enable();        // learn the address ranges of the libraries left alone
uint64_t sim_map_seed();        // for google::protobuf::Map
void sim_set_map_seed(uint64_t);
void sim_set_yields(int on);
void sim_direct(int on);          // the calling thread acts as the only simulated thread
}

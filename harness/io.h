#pragma once
#include <string>
#include "sim.h"
namespace io {
enum { K_OPEN = sim::K_F0, K_WRITE, K_READ, K_SEEK, K_JUMP, K_CLOCK, K_CUT };
struct P { double open = 0, write = 0, shortw = 0, intr = 0, crash = 0, read = 0, shortr = 0, cut = 0; bool point = false; };
extern P p;
extern bool quiet;                  // no faults, not counted
extern int hard_faults(int thread); // errors, failed opens, crashes met by this simulated thread
extern bool crashed;
struct Still { bool q; Still() : q(quiet) { quiet = true; } ~Still() { quiet = q; } };
bool slurp(const std::string &path, std::string &out);     // real content, no faults
void put(const std::string &path, const std::string &text);
void scratch();
void short_ok(const std::string &path, bool ok);           // short transfers allowed on this file
// clock
extern long long mono_ns, real_off_ns; extern bool clock_on; extern double p_clock; extern int clock_faults[8];
}

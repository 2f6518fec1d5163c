#pragma once
#include <string>
#include <vector>
#include <functional>
// Controlled OpenMP runtime: interface for the harness
namespace omp_rt {
struct Choice { int n, taken, free; };
extern std::vector<int> prefix; extern std::vector<Choice> trail;
extern std::string failure; extern bool explore, track; extern int max_threads, policy;
extern unsigned long long transitions, accesses, regions, untracked;
void reset();                       // before an execution
bool next_prefix(long maxdev);      // the next schedule in depth-first order
std::string show();
}

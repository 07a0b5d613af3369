// A run: operations of logical clients, faults, scheduling decisions. Host code.
#pragma once
#include "rt.h"
#include <map>
#include <string>
#include <vector>
struct Op { int client = 0; std::string name; int64_t a[5] = {0, 0, 0, 0, 0}; uint64_t seed = 0; };
struct Script {
  std::string prop; uint64_t seed = 0; std::map<std::string, int64_t> conf; std::vector<Op> ops; std::vector<rt::Sched> sched; bool replay = false;
  int64_t get(const char* k, int64_t d) const { auto it = conf.find(k); return it == conf.end() ? d : it->second; }
  std::string text() const; static bool parse(const std::string& text, Script& out);
};
// provided by the world linked into the executable
Script world_generate(const std::string& prop, uint64_t seed);
// executes operations from `start`; returns the index of the operation after a restart, or -1 when finished
int64_t world_execute(const Script& s, int64_t start);
bool world_threads();

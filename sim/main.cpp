// Runner: seeded search over many runs, minimisation, replay, determinism self-check. Host code.
#include "script.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>

using rt::Result; using rt::res;

std::string Script::text() const {
  std::ostringstream o; o << "prop " << prop << "\nseed " << seed << "\n"; for (auto& c : conf) o << "conf " << c.first << " " << c.second << "\n";
  if (replay) o << "replay 1\n";
  for (auto& p : ops) { o << "op " << p.client << " " << p.name; for (int i = 0; i < 5; i++) o << " " << p.a[i]; o << " " << p.seed << "\n"; }
  for (auto& s : sched) o << "sched " << s.tid << " " << s.step << " " << s.action << "\n";
  return o.str();
}
bool Script::parse(const std::string& t, Script& s) {
  s = Script(); std::istringstream in(t); std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue; std::istringstream l(line); std::string w; l >> w;
    if (w == "prop") l >> s.prop; else if (w == "seed") l >> s.seed; else if (w == "conf") { std::string k; int64_t v; l >> k >> v; s.conf[k] = v; }
    else if (w == "replay") s.replay = true;
    else if (w == "op") { Op p; l >> p.client >> p.name; for (int i = 0; i < 5; i++) l >> p.a[i]; l >> p.seed; s.ops.push_back(p); }
    else if (w == "sched") { rt::Sched c; l >> c.tid >> c.step >> c.action; s.sched.push_back(c); }
    else if (w == "world" ) {} else return false;
    if (l.fail()) return false;
  }
  return true;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int devnull = -1;
static bool verbose = false;
static int run_timeout = 15;   // seconds of processor time; runs take milliseconds

// executes one run in child processes; fills *res
static void execute(const Script& s, bool trace, int timeout = 0) {
  memset(res, 0, offsetof(Result, sched)); res->nsched = 0; res->curop = 0; memset(res->extra, 0, sizeof res->extra); res->tracelen = 0; res->bloblen = 0;
  int64_t start = 0;
  for (int phase = 0; phase < 50; phase++) {
    res->status = rt::ST_RUNNING; res->extra[0] = -1;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
      if (!verbose) { dup2(devnull, 1); dup2(devnull, 2); }
      alarm(0); signal(SIGALRM, SIG_DFL); signal(SIGXCPU, SIG_DFL); { rlim_t l = (rlim_t)(timeout ? timeout : run_timeout); struct rlimit rl = {l, l + 5}; setrlimit(RLIMIT_CPU, &rl); }
      rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      rt::tracing = trace;
      int64_t next = world_execute(s, start);
      res->extra[0] = next; res->status = rt::ST_OK; _exit(0);
    }
    int st; double t0 = now(), lim = timeout ? timeout : run_timeout; int us = 200; bool hung = false;
    while (true) {
      pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break;
      double el = now() - t0;
      if (el > 4 * lim) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
      if (el < 0.004) { usleep(us); } else usleep(el < 0.1 ? 500 : 3000);
    }
    if (res->status == rt::ST_RUNNING && WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) hung = true;
    if (hung) { res->status = rt::ST_VIOLATION; snprintf(res->kind, sizeof res->kind, "hang"); snprintf(res->msg, sizeof res->msg, "operation %u did not finish within %g s", res->curop, lim); return; }
    if (res->status == rt::ST_RUNNING) {
      res->status = rt::ST_VIOLATION; snprintf(res->kind, sizeof res->kind, "crash");
      snprintf(res->msg, sizeof res->msg, "the process ended unexpectedly (status 0x%x) in operation %u", st, res->curop);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "simulator error in run:\n%s", s.text().c_str()); res->status = rt::ST_INVALID; snprintf(res->kind, sizeof res->kind, "simulator error"); }
    }
    if (res->status != rt::ST_OK) return;
    if (res->extra[0] < 0) return;
    start = res->extra[0]; res->counters[rt::F_RESTART]++;
  }
}
static Script with_sched(const Script& s) { Script t = s; t.replay = true; t.sched.assign(res->sched, res->sched + res->nsched); return t; }

struct Known { std::string prop, kind, text; };
static std::vector<Known> known;
static const Known* is_known(const std::string& prop) { for (auto& k : known) if (k.prop == prop && k.kind == res->kind && strstr(res->msg, k.text.c_str())) return &k; return nullptr; }

static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

static uint64_t run_seed(uint64_t base, uint64_t i) { return rt::mix64(base * 1000003 + 17) ^ rt::mix64(i * 2 + 1); }

struct Shared { volatile int stop; volatile uint64_t next; };

static int search(const std::string& prop, uint64_t seed, double seconds, uint64_t maxruns, int workers, const std::string& out, uint64_t minruns, double maxseconds) {
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof *sh);
  double t0 = now(); std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p) { pids.push_back(p); continue; }
    res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::unordered_set<uint64_t> inter, hashes; std::set<uint64_t> states; uint64_t cnt[rt::K_NCOUNTERS] = {0}; uint64_t runs = 0, invalid = 0, nontrivial = 0; std::map<std::string, uint64_t> kn; std::map<std::string, uint64_t> inv;
    std::vector<std::string> samples;
    while (!sh->stop && (now() - t0 < seconds || (sh->next < minruns && now() - t0 < maxseconds))) {
      uint64_t i = __sync_fetch_and_add(&sh->next, 1); if (maxruns && i >= maxruns) break;
      Script s = world_generate(prop, run_seed(seed, i));
      double e0 = now(); execute(s, false);
      if (now() - e0 > 4) { std::ofstream f(out + "/slow." + std::to_string(i)); f << "#op " << res->curop << " s " << now() - e0 << "\n" << s.text(); }
      if (res->status == rt::ST_VIOLATION && !strcmp(res->kind, "hang")) { Script t = with_sched(s); if (!world_threads()) t = s; execute(t, false, 2 * run_timeout); if (res->status == rt::ST_OK) { runs++; continue; } }
      runs++; for (int k = 0; k < rt::K_NCOUNTERS; k++) cnt[k] += res->counters[k];
      for (int k = 0; k < 4096; k++) if (res->states[k]) states.insert(res->states[k]);
      if (res->inter) inter.insert(res->inter);
      if (hashes.insert(res->hash).second && res->counters[rt::K_CHECKS] > 0) nontrivial++;
      if (samples.size() < 2 && res->status == rt::ST_OK) { std::string t = s.text(); samples.push_back(t.size() > 700 ? t.substr(0, 700) + "..." : t); }
      if (res->status == rt::ST_INVALID) { invalid++; inv[res->kind]++; }
      if (res->status == rt::ST_VIOLATION) {
        if (auto k = is_known(prop)) { kn[k->kind + "|" + k->text]++; continue; }
        sh->stop = 1; Script t = s; if (world_threads()) t = with_sched(s);
        std::ofstream f(out + "/viol." + std::to_string(i)); f << "#kind " << res->kind << "\n#msg " << res->msg << "\n" << t.text(); f.close();
        break;
      }
    }
    std::ofstream f(out + "/stats." + std::to_string(w), std::ios::binary);
    f << "runs " << runs << "\ninvalid " << invalid << "\nnontrivial " << nontrivial << "\n";
    for (int k = 0; k < rt::K_NCOUNTERS; k++) f << "counter " << rt::counter_names[k] << " " << cnt[k] << "\n";
    for (auto x : states) f << "s " << x << "\n"; for (auto x : inter) f << "i " << x << "\n"; for (auto x : hashes) f << "h " << x << "\n";
    for (auto& k : kn) f << "known " << k.second << " " << k.first << "\n"; for (auto& k : inv) f << "inv " << k.second << " " << k.first << "\n";
    if (w < 2) for (auto& s : samples) f << "sample " << jstr(s) << "\n";
    f.close(); _exit(0);
  }
  for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed (status %x)\n", st); return 3; } }
  return 0;
}

static double min_deadline; static int min_timeout = 15;
static bool same_kind(const std::string& kind) { return res->status == rt::ST_VIOLATION && kind == res->kind; }
// does the script still fail in the same way? For threaded worlds a few schedules are tried; s is replaced by the failing one
static bool still_fails(Script& s, const std::string& kind, int tries) {
  if (now() > min_deadline) return false;
  execute(s, false, min_timeout);
  if (same_kind(kind)) return true;
  if (!world_threads()) return false;
  for (int i = 0; i < tries && now() < min_deadline; i++) {
    Script t = s; t.replay = false; t.sched.clear(); t.conf["sched_seed"] = (int64_t)(rt::mix64(i + 1) >> 2);
    execute(t, false, min_timeout); if (same_kind(kind)) { s = with_sched(t); return true; }
  }
  return false;
}
static int minimise(const std::string& in, const std::string& out) {
  std::ifstream f(in); std::stringstream ss; ss << f.rdbuf(); Script s; if (!Script::parse(ss.str(), s)) { fprintf(stderr, "cannot parse %s\n", in.c_str()); return 3; }
  min_deadline = now() + 60;
  execute(s, false, 2 * run_timeout); if (res->status != rt::ST_VIOLATION) { fprintf(stderr, "does not reproduce\n"); std::ofstream(out) << s.text(); return 4; }
  std::string kind = res->kind; Script best = s;
  bool hang = kind == "hang"; min_timeout = hang ? 3 : run_timeout; if (hang) min_deadline = now() + 60;
  for (size_t chunk = std::max<size_t>(1, best.ops.size() / 2); now() < min_deadline;) {
    bool any = false;
    for (size_t i = 0; i < best.ops.size() && now() < min_deadline;) {
      Script t = best; size_t e = std::min(t.ops.size(), i + chunk); t.ops.erase(t.ops.begin() + i, t.ops.begin() + e);
      if (still_fails(t, kind, 12)) { best = t; any = true; } else i += chunk;
    }
    if (chunk == 1 && !any) break; if (chunk > 1) chunk = (chunk + 1) / 2; else if (!any) break;
  }
  if (world_threads() && !hang) {
    min_deadline = now() + 20;
    for (size_t chunk = std::max<size_t>(1, best.sched.size() / 2); now() < min_deadline;) {
      bool any = false;
      for (size_t i = 0; i < best.sched.size() && now() < min_deadline;) {
        Script t = best; size_t e = std::min(t.sched.size(), i + chunk); t.sched.erase(t.sched.begin() + i, t.sched.begin() + e);
        execute(t, false, min_timeout); if (same_kind(kind)) { best = t; any = true; } else i += chunk;
      }
      if (chunk == 1 && !any) break; if (chunk > 1) chunk = (chunk + 1) / 2;
    }
  }
  execute(best, true, 2 * run_timeout); if (!same_kind(kind)) { best = s; execute(best, true, 2 * run_timeout); }
  std::ofstream o(out); o << best.text();
  o << "# violation kind: " << res->kind << "\n# " << res->msg << "\n# event hash: " << res->hash << "\n# trace of the minimised run:\n";
  std::istringstream tr(std::string(res->trace, res->tracelen)); std::string l; while (std::getline(tr, l)) o << "#   " << l << "\n";
  printf("KIND %s\nMSG %s\nHASH %lu\n", res->kind, res->msg, (unsigned long)res->hash);
  return 0;
}
int main(int argc, char** argv) {
  rt::init_process();
  devnull = open("/dev/null", O_WRONLY);
  res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, std::string> o; std::string mode = argc > 1 ? argv[1] : "";
  std::vector<std::string> pos;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; if (a == "-v") verbose = true; else if (a.substr(0, 2) == "--" && i + 1 < argc) o[a.substr(2)] = argv[++i]; else pos.push_back(a); }
  if (o.count("known")) { std::ifstream f(o["known"]); std::string l; while (std::getline(f, l)) { size_t a = l.find('\t'), b = l.find('\t', a + 1); if (a == std::string::npos || b == std::string::npos) continue; known.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)}); } }
  auto num = [&](const char* k, double d) { return o.count(k) ? atof(o[k].c_str()) : d; };
  auto unum = [&](const char* k, uint64_t d) { return o.count(k) ? strtoull(o[k].c_str(), 0, 10) : d; };
  if (mode == "search") return search(o["prop"], unum("seed", 1), num("seconds", 20), unum("runs", 0), (int)num("workers", 8), o["out"], unum("minruns", 0), num("maxseconds", 0));
  if (mode == "minimise") return minimise(pos.at(0), pos.at(1));
  if (mode == "replay") {
    std::ifstream f(pos.at(0)); std::stringstream ss; ss << f.rdbuf(); Script s; if (!Script::parse(ss.str(), s)) { fprintf(stderr, "cannot parse\n"); return 3; }
    execute(s, true, 2 * run_timeout); fwrite(res->trace, 1, res->tracelen, stdout);
    printf("STATUS %d\nKIND %s\nMSG %s\nHASH %lu\n", res->status, res->kind, res->msg, (unsigned long)res->hash); return res->status == rt::ST_VIOLATION ? 1 : res->status == rt::ST_OK ? 0 : 2;
  }
  if (mode == "one") {
    uint64_t i = unum("index", 0); Script s = world_generate(o["prop"], o.count("runseed") ? unum("runseed", 0) : run_seed(unum("seed", 1), i));
    if (o.count("print")) fputs(s.text().c_str(), stdout);
    execute(s, true); fwrite(res->trace, 1, res->tracelen, stdout);
    printf("STATUS %d\nKIND %s\nMSG %s\nHASH %lu\n", res->status, res->kind, res->msg, (unsigned long)res->hash);
    for (int k = 0; k < rt::K_NCOUNTERS; k++) if (res->counters[k]) printf("%s=%lu ", rt::counter_names[k], (unsigned long)res->counters[k]); printf("\n"); return 0;
  }
  if (mode == "determinism") { // every run executed twice (threaded ones also from their recorded schedule) must have the same event hash
    uint64_t n = unum("runs", 20), bad = 0;
    for (uint64_t i = 0; i < n; i++) {
      Script s = world_generate(o["prop"], run_seed(unum("seed", 1) ^ 0xabcdef, i)); execute(s, false); if (!strcmp(res->kind, "hang")) break; uint64_t h = res->hash; int st = res->status; Script t = world_threads() ? with_sched(s) : s; uint64_t in = res->inter;
      execute(s, false); if (res->hash != h || res->status != st || res->inter != in) { bad++; fprintf(stderr, "run %lu is not deterministic\n", (unsigned long)i); }
      if (world_threads()) { execute(t, false); if (res->hash != h || res->status != st || res->inter != in) { bad++; fprintf(stderr, "run %lu: replay of the schedule differs\n", (unsigned long)i); } }
    }
    printf("determinism: %lu runs, %lu differ\n", (unsigned long)n, (unsigned long)bad); return bad ? 3 : 0;
  }
  fprintf(stderr, "usage: sim search|minimise|replay|one|determinism ...\n"); return 3;
}

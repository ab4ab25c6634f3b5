// Native runtime of the harness API: inputs from a replay file, or random.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <chrono>
#include <exception>
#include "vf.h"

struct VfReject {};
struct VfFail { std::string what; };

static bool replay = false;
static std::vector<std::pair<std::string, uint64_t>> inputs;  // replay inputs
static std::map<std::string, size_t> used;
static std::mt19937_64 rng;
static std::vector<std::pair<std::string, uint64_t>> trace;
static std::vector<std::string> failures;
static std::map<std::string, uint64_t> covers;
static uint64_t last_val[8];
static unsigned nlast = 0;

extern "C" {
void vf_assert(bool c, const char* name) { if (!c) failures.push_back(name); }
void vf_assume(bool c) { if (!c) throw VfReject(); }
void vf_cover(bool c, const char* name) { if (c) covers[name]++; }
void vf_limit(const char*) {}
uint64_t vf_nd_hidden(uint64_t) { return 0; }
uint64_t vf_nd(uint64_t bits, const char* name) {
  uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
  uint64_t v;
  if (replay) {
    // the next unused value of that name (the proof-mode harness may draw further, abstract values)
    std::string key(name); for (auto& c : key) if (c == ' ') c = '_';
    size_t& k = used[key]; v = 0;
    while (k < inputs.size() && inputs[k].first != key) k++;
    if (k < inputs.size()) { v = inputs[k].second; k++; }
  } else {
    // mixture: uniform, small, recently used, special
    switch (rng() % 8) {
      case 0: v = rng() % 4; break;
      case 1: v = nlast ? last_val[rng() % (nlast < 8 ? nlast : 8)] : rng(); break;
      case 2: v = (rng() % 3 == 0) ? ~0ull : (1ull << (rng() % (bits ? bits : 1))); break;
      case 3: v = rng() & rng() & rng(); break;
      default: v = rng();
    }
    last_val[nlast++ % 8] = v;
  }
  v &= m;
  trace.emplace_back(name, v);
  return v;
}
uint64_t vf_nd_pick(uint64_t bits, const char* name, const uint32_t* likely, uint32_t n) {
  if (replay || n == 0 || rng() % 4 == 0) return vf_nd(bits, name);
  uint64_t v = likely[rng() % n];
  trace.emplace_back(name, v);
  return v;
}
}

int main(int argc, char** argv) {
  // usage: prog harness replay FILE | prog harness random SECONDS SEED OUT
  std::string h = argv[1], mode = argv[2];
  void* self = dlopen(nullptr, RTLD_NOW);
  auto fn = reinterpret_cast<void (*)()>(dlsym(self, h.c_str()));
  if (!fn) { fprintf(stderr, "no harness %s\n", h.c_str()); return 3; }
  auto print_trace = [&](FILE* f) { for (auto& t : trace) fprintf(f, "%s %llu\n", t.first.c_str(), (unsigned long long)t.second); };
  if (mode == "replay") {
    replay = true;
    FILE* f = fopen(argv[3], "r");
    char name[256]; unsigned long long v;
    while (f && fscanf(f, "%255s %llu", name, &v) == 2) inputs.emplace_back(name, v);
    if (f) fclose(f);
    try { fn(); }
    catch (VfReject&) { printf("REJECTED: an assumption of the harness does not hold for these inputs\n"); return 4; }
    catch (std::exception& e) { printf("FAIL uncaught exception escaped: %s\n", e.what()); return 1; }
    catch (...) { printf("FAIL uncaught exception escaped\n"); return 1; }
    for (auto& s : failures) printf("FAIL %s\n", s.c_str());
    if (failures.empty()) printf("OK\n");
    return failures.empty() ? 0 : 1;
  }
  double secs = atof(argv[3]); uint64_t seed = strtoull(argv[4], nullptr, 10); const char* out = argv[5];
  // Each batch runs in a child so that crashes are observed; the child reports its seed index.
  auto t0 = std::chrono::steady_clock::now();
  uint64_t maxruns = argc > 6 ? strtoull(argv[6], nullptr, 10) : ~0ull;
  uint64_t base = 0; uint64_t total = 0, rejected = 0;
  auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  uint64_t batch = 200;
  while (elapsed() < secs && total < maxruns) {
    int pfd[2]; if (pipe(pfd) != 0) return 3;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]);
      uint64_t rej = 0, done = 0;
      for (uint64_t i = 0; i < batch; i++) {
        uint64_t hdr[4] = {base + i, done, rej, 0};
        if (write(pfd[1], hdr, sizeof hdr) < 0) _exit(9);
        rng.seed(seed * 1000003ull + base + i);
        trace.clear(); failures.clear(); nlast = 0;
        bool bad = false; std::string what;
        try { fn(); if (!failures.empty()) { bad = true; what = failures[0]; } }
        catch (VfReject&) { rej++; }
        catch (std::exception& e) { bad = true; what = std::string("uncaught exception escaped: ") + e.what(); }
        catch (...) { bad = true; what = "uncaught exception escaped"; }
        done++;
        if (bad) {
          FILE* f = fopen(out, "w"); if (f) { print_trace(f); fclose(f); }
          printf("FAIL %s\n", what.c_str());
          for (size_t k = 1; k < failures.size() && k < 20; k++) printf("FAIL %s\n", failures[k].c_str());
          fflush(stdout);
          _exit(7);
        }
        if (elapsed() > secs) break;
      }
      uint64_t hdr[4] = {~0ull, done, rej, 1};
      if (write(pfd[1], hdr, sizeof hdr) < 0) _exit(9);
      for (auto& c : covers) printf("COVER %s\n", c.first.c_str());
      fflush(stdout);
      _exit(0);
    }
    close(pfd[1]);
    uint64_t hdr[4], last[4] = {0, 0, 0, 0};
    while (read(pfd[0], hdr, sizeof hdr) == (ssize_t)sizeof hdr) memcpy(last, hdr, sizeof hdr);
    close(pfd[0]);
    int st = 0; waitpid(pid, &st, 0);
    total += last[1]; rejected += last[2];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { printf("RUNS %llu REJECTED %llu\n", (unsigned long long)total, (unsigned long long)rejected); return 1; }
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
      // regenerate the input trace of the crashing run in a fresh child that writes as it goes
      pid_t p2 = fork();
      if (p2 == 0) {
        rng.seed(seed * 1000003ull + last[0]); trace.clear(); nlast = 0;
        static FILE* f; f = fopen(out, "w");
        static auto pt = print_trace;
        auto handler = [](int) { if (f) { pt(f); fclose(f); } _exit(0); };
        signal(SIGSEGV, handler); signal(SIGABRT, handler); signal(SIGFPE, handler); signal(SIGILL, handler); signal(SIGTRAP, handler);
        fclose(stderr);
        try { fn(); } catch (...) {}
        if (f) { pt(f); fclose(f); }
        _exit(0);
      }
      int s2; waitpid(p2, &s2, 0);
      printf("FAIL crash: %s %d\n", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
      printf("RUNS %llu REJECTED %llu\n", (unsigned long long)total, (unsigned long long)rejected);
      return 1;
    }
    base += batch;
    if (batch < 20000) batch *= 2;
  }
  printf("RUNS %llu REJECTED %llu\n", (unsigned long long)total, (unsigned long long)rejected);
  return 0;
}

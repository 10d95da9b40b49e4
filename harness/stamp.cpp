// X06 time stamps: the wall clock and the time zone are set by the harness
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static struct timespec wall = {0, 0};
static int real_clock(clockid_t id, struct timespec* out) { return (int)syscall(SYS_clock_gettime, id, out); }
extern "C" {
time_t time(time_t* out) noexcept { if (out) *out = wall.tv_sec; return wall.tv_sec; }
int clock_gettime(clockid_t id, struct timespec* out) noexcept { if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) { *out = wall; return 0; } return real_clock(id, out); }
int gettimeofday(struct timeval* out, void*) noexcept { out->tv_sec = wall.tv_sec; out->tv_usec = wall.tv_nsec / 1000; return 0; }
int timespec_get(struct timespec* out, int base) noexcept { *out = wall; return base; }
}
#include <chrono>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cstdlib>
#include "arc_utilities/arc_helpers.hpp"
#include "arc_utilities/log.hpp"
#include "arc_utilities/timing.hpp"
#include "trace.hpp"
using namespace vt;
using VL = std::vector<long>;
static std::string first_line(const std::string& p) { std::ifstream f(p); std::string l; std::getline(f, l); f.close(); unlink(p.c_str()); return l; }
int main() {
  vt::open();
  Rng g(seed() + 66);
  arc_utilities::Profiler::addData("some name", 1.0);
  std::string d = workdir() + "/stamps"; mkdir(d.c_str(), 0700);
  for (long k = 0, K = scale(60, 600); k < K; k++) {
    begin("stamp");
    long off = g.pick(VL{0, 0, 1800, -1800, 3600, 19800, -12600, -36000, 50400, -28800}), a = std::labs(off);
    std::string tz = std::string("ABC") + (off > 0 ? "-" : "+") + std::to_string(a / 3600) + ":" + (a / 60 % 60 < 10 ? "0" : "") + std::to_string(a / 60 % 60);
    setenv("TZ", tz.c_str(), 1); tzset();
    for (int q = 0; q < 12; q++) {
      // anywhere, near the turn of a minute, hour, day or year, around the end of February
      long day = g.chance(.4) ? g.in(2, 24850) : g.pick(VL{31 + 28, 789, 790, 11016, 11017, 10956, 10957, 24530, 24531}) + g.in(-1, 1);
      long sec = g.chance(.4) ? g.in(0, 86399) : g.pick(VL{0, 59, 60, 3599, 3600, 12 * 3600 - 1, 12 * 3600, 13 * 3600 + 61, 86399, 86340});
      long ns = g.chance(.3) ? g.pick(VL{0, 999999999, 999999, 1000000, 99999999, 100000000, 9999999}) : g.in(0, 999999999);
      long t = day * 86400 + sec - off; wall.tv_sec = t; wall.tv_nsec = ns;
      cur() = "time stamp at " + std::to_string(t) + "." + std::to_string(ns) + " zone " + std::to_string(off);
      Ev("clock").f("t", t).f("ms", ns / 1000000).f("off", off).emit();
      std::string s = arc_helpers::GetCurrentTimeAsString(), m = arc_helpers::GetCurrentTimeAsStringWithMilliseconds(), lp = d + "/l", pp = d + "/p";
      { Log::Log l(lp, true); }
      std::vector<std::string> prof; arc_utilities::Profiler::writeAllSummary(pp); prof.push_back(first_line(pp));
      arc_utilities::Profiler::writeAll(pp); prof.push_back(first_line(pp));
      Ev("stamp").f("s", s).f("m", m).f("log", first_line(lp)).f("prof", prof).emit();
    }
    if (k % 10 == 0) { long us = g.pick(VL{-5000, 0, 300, 2500, 12000}); cur() = "sleep"; struct timespec u, v; real_clock(CLOCK_MONOTONIC, &u); arc_helpers::Sleep((double)us / 1e6); real_clock(CLOCK_MONOTONIC, &v);
      Ev("sleep").f("want", us).f("took", (v.tv_sec - u.tv_sec) * 1000000 + (v.tv_nsec - u.tv_nsec) / 1000 + 1).emit(); }
  }
  rmdir(d.c_str());
  done();
}

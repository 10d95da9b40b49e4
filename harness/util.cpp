// P01 profiler, L01 message logs, M01 Maybe
#include <algorithm>
#include <chrono>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include <fcntl.h>
#include "arc_utilities/timing.hpp"
#include "arc_utilities/log.hpp"
#include "arc_utilities/maybe.hpp"
#include "trace.hpp"
using namespace vt;
using VL = std::vector<long>;
using VV = std::vector<VL>;
using VS = std::vector<std::string>;
using arc_utilities::Profiler;

static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static VS lines_of(const std::string& t) { VS r; std::stringstream s(t); std::string l; while (std::getline(s, l)) r.push_back(l); return r; }
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); while (!s.empty() && isspace((unsigned char)s.front())) s.erase(s.begin()); return s; }

// ------------------------------------------------------------------ P01
static std::chrono::steady_clock::time_point t_zero;
static long now_units() { return (long)(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t_zero).count() / 100); }
static void spend(Rng& g) {  // some time passes
  long us = g.pick(std::vector<long>{0, 0, 5, 50, 400});
  long until = now_units() + us * 10;
  while (now_units() < until) {}
}
struct Row { std::string name; VL v; };
static std::string js(const Row& r) { return "[" + vt::js(r.name) + "," + vt::js(r.v) + "]"; }
static std::string rows_js(const std::vector<Row>& rows) { std::string s = "["; for (size_t k = 0; k < rows.size(); k++) s += (k ? "," : "") + js(rows[k]); return s + "]"; }
// trailing numbers of a row in units of 1e-6, except integer counts
static bool parse_row(const std::string& l, Row& r, bool summary) {
  std::stringstream s(l); VS w; std::string x;
  while (s >> x) w.push_back(x);
  VL v; size_t k = w.size();
  while (k > 0) {
    char* e; const char* c = w[k - 1].c_str();
    double d = strtod(c, &e);
    if (*e || !*c) break;
    bool integer = w[k - 1].find_first_not_of("0123456789") == std::string::npos;
    v.insert(v.begin(), summary && integer ? (long)d : fix(d, 1e6));
    k--;
  }
  if (v.empty()) return false;
  size_t p = l.find(w[k]);
  r.name = trim(l.substr(0, p)); r.v = v;
  return true;
}
static std::vector<Row> parse_rows(const std::string& t, bool summary) {
  std::vector<Row> r;
  for (auto& l : lines_of(t)) { Row x; if (l.size() > 4 && isdigit((unsigned char)l[0]) && l[4] == '-' && l.find(':') != std::string::npos) continue; if (parse_row(l, x, summary) && !x.name.empty()) r.push_back(x); }
  return r;
}
template <typename F> static std::string captured(F f) {
  std::string p = workdir() + "/out.txt";
  std::cout.flush(); fflush(stdout);
  int save = dup(1), fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  dup2(fd, 1); close(fd);
  f();
  std::cout.flush(); fflush(stdout);
  dup2(save, 1); close(save);
  return slurp(p);
}
static VS all_names{"a", "b", "c"};
static long file_no = 0;
static std::string data_js(const VS& names) {
  std::vector<Row> r;
  for (auto& n : names) { VL v; for (double d : Profiler::getData(n)) v.push_back(fix(d, 1e7)); r.push_back({n, v}); }
  return rows_js(r);
}
static void report(Rng& g, const VS& names, int kind) {
  cur() = "report " + std::to_string(kind);
  std::string p = workdir() + "/p" + std::to_string(file_no++) + ".txt";
  if (kind == 0) {  // single
    std::string n = g.pick(names);
    std::string t = captured([&] { PROFILE_PRINT_SUMMARY_FOR_SINGLE(n); });
    VL v; bool never = t.find("never called") != std::string::npos;
    long calls = -1;
    for (auto& l : lines_of(t)) {
      size_t c = l.find(" : ");
      if (l.find("called ") == 0) calls = atol(l.c_str() + 7);
      else if (c != std::string::npos && l.find("Summary") == std::string::npos) v.push_back(fix(strtod(l.c_str() + c + 3, nullptr), 1e7));
    }
    Ev("psingle").f("name", n).f("never", never).f("calls", calls).f("v", v).emit();
  } else if (kind <= 2) {
    VS ask = names;
    if (kind == 1) { ask.clear(); for (auto& n : names) if (g.chance(0.7)) ask.push_back(n); if (g.chance(0.3)) ask.push_back("never used"); if (g.chance(0.2)) ask.insert(ask.begin(), "~~~~~"); }
    std::string t = captured([&] { if (kind == 1) PROFILE_PRINT_SUMMARY_FOR_GROUP(ask); else PROFILE_PRINT_SUMMARY_FOR_ALL(); });
    ask.erase(std::remove(ask.begin(), ask.end(), "~~~~~"), ask.end());
    Ev("pgroup").f("all", kind == 2).f("ask", ask).f("wide", false).f("rows", Raw{rows_js(parse_rows(t, true))}).emit();
  } else if (kind <= 4) {
    VS ask = names;
    if (kind == 3) { ask.clear(); for (auto& n : names) if (g.chance(0.7)) ask.push_back(n); if (g.chance(0.3)) ask.push_back("never used"); }
    captured([&] { if (kind == 3) PROFILE_WRITE_SUMMARY_FOR_GROUP(p, ask); else PROFILE_WRITE_SUMMARY_FOR_ALL(p); });
    Ev("pgroup").f("all", kind == 4).f("ask", ask).f("wide", true).f("rows", Raw{rows_js(parse_rows(slurp(p), true))}).emit();
  } else {
    long limit = kind == 5 ? -1 : g.in(0, 4);
    bool keep = g.chance(0.3);
    if (keep) { std::ofstream f(p); f << "earlier text\n"; }
    if (limit < 0) { PROFILE_WRITE_ALL(p); } else { PROFILE_WRITE_ALL_FEWER_THAN(p, (size_t)limit); }
    std::string t = slurp(p);
    bool kept = !keep || t.find("earlier text\n") == 0;
    Ev("pall").f("limit", limit).f("kept", kept).f("rows", Raw{rows_js(parse_rows(t, false))}).emit();
  }
  unlink(p.c_str());
}
static void prof_op(Rng& g, const std::string& op, const std::string& n, const VS& names) {
  cur() = op + " " + n;
  double val = (double)g.in(-4000, 20000) / 1000.0;
  double ret = 0; int res = 0; int kind = 0;
  spend(g);
  long t0 = now_units();
  if (op == "start") PROFILE_START(n);
  else if (op == "record") { try { ret = PROFILE_RECORD(n); } catch (const std::logic_error&) { res = 1; } catch (...) { res = 2; } }
  else if (op == "add") Profiler::addData(n, val);
  else if (op == "timed") ret = PROFILE_RECORD_DOUBLE(n, val);
  else if (op == "reset") PROFILE_RESET(n);
  else { PROFILE_REINITIALIZE((size_t)g.in(0, 4), (size_t)g.in(0, 5)); }
  long t1 = now_units();
  (void)kind;
  Ev("prof").f("what", op).f("name", n).f("t0", t0).f("t1", t1).f("res", res).f("ret", fix(ret, 1e7)).f("val", fix(val, 1e7)).f("data", Raw{data_js(names)}).emit();
}
static void new_scenario() {
  begin("prof"); t_zero = std::chrono::steady_clock::now();
  PROFILE_REINITIALIZE(0, 0);  // timers survive: names of a scenario are new
}
static void profiler() {
  Rng g(seed() + 30);
  auto scenario_names = [&](long k) { VS n; for (auto& a : all_names) n.push_back((g.chance(0.3) ? "name with spaces " : "") + a + "_" + std::to_string(k) + "x"); return n; };
  long sc = 0;
  new_scenario();
  for (int k = 0; k < 7; k++) if (k) report(g, VS{"nobody_x"}, k);  // no names at all
  for (auto& l : gen_lines()) {
    VS names = scenario_names(sc++);
    new_scenario();
    size_t p = 0;
    while ((p = l.find("<<\"", p)) != std::string::npos) {
      size_t q = l.find('"', p + 3); std::string op = l.substr(p + 3, q - p - 3);
      size_t a = l.find('"', q + 1), b = l.find('"', a + 1); std::string n = l.substr(a + 1, b - a - 1);
      p = b;
      prof_op(g, op, n.empty() ? "" : names[(size_t)(n[0] - 'a')], names);
      if (g.chance(0.3)) report(g, names, (int)g.in(0, 6));
    }
    for (int k = 0; k < 7; k++) report(g, names, k);
  }
  for (long k = 0, K = scale(30, 400); k < K; k++) {
    VS names = scenario_names(sc++);
    new_scenario();
    for (long s = g.in(10, 60); s--;) {
      std::string op = g.pick(VS{"start", "start", "record", "record", "record", "add", "add", "timed", "timed", "reset", "reinit"});
      if (op == "reinit" && g.chance(0.6)) op = "add";
      prof_op(g, op, op == "reinit" ? "" : g.pick(names), names);
      if (g.chance(0.25)) report(g, names, (int)g.in(0, 6));
    }
    for (int q = 0; q < 7; q++) report(g, names, q);
  }
  for (long k = 0, K = scale(10, 60); k < K; k++) {
    begin("watch"); t_zero = std::chrono::steady_clock::now();
    long a0 = now_units();
    arc_utilities::Stopwatch w;
    long a1 = now_units();
    Ev("wnew").f("k", 1).f("t0", a0).f("t1", a1).emit();
    for (long s = 25; s--;) {
      spend(g);
      bool global = g.chance(0.4), reset = g.chance(0.3), dflt = g.chance(0.3);
      long t0 = now_units();
      double r = global ? (reset ? arc_utilities::GlobalStopwatch(arc_utilities::RESET) : dflt ? arc_utilities::GlobalStopwatch() : arc_utilities::GlobalStopwatch(arc_utilities::READ))
                        : (reset ? w(arc_utilities::RESET) : dflt ? w() : w(arc_utilities::READ));
      long t1 = now_units();
      Ev("watch").f("k", global ? 2 : 1).f("reset", reset).f("t0", t0).f("t1", t1).f("ret", fix(r, 1e7)).emit();
    }
  }
}
// ------------------------------------------------------------------ L01
namespace logs {
static std::map<long, std::string> text;
static long next_id = 1;
static std::string payload(Rng& g) {
  std::string s;
  long n = g.pick(std::vector<long>{0, 1, 5, 40, 300, 9000});
  for (long k = 0; k < n; k++) s += g.chance(0.05) ? '\n' : g.chance(0.05) ? '"' : (char)g.in(32, 126);
  return s;
}
static bool date_line(const std::string& l) {
  static const char* pat = "dddd-dd-dd dd:dd:dd";
  if (l.size() != strlen(pat)) return false;
  for (size_t k = 0; k < l.size(); k++) if (pat[k] == 'd' ? !isdigit((unsigned char)l[k]) : l[k] != pat[k]) return false;
  return true;
}
static VL content(const std::string& path) {
  std::string t = slurp(path);
  VL r; size_t p = 0;
  while (p < t.size()) {
    long id = -1;
    if (t[p] == 'm') { id = atol(t.c_str() + p + 1); auto it = text.find(id); if (it == text.end() || t.compare(p, it->second.size() + 1, it->second + "\n") != 0) id = -1; else p += it->second.size() + 1; }
    else { size_t e = t.find('\n', p); if (e != std::string::npos && date_line(t.substr(p, e - p))) { id = 0; p = e + 1; } }
    r.push_back(id);
    if (id < 0) break;
  }
  return r;
}
struct World {
  std::vector<std::unique_ptr<Log::Log>> slot;
  VS path;
  World(size_t n, VS p) : slot(n), path(p) {}
  void op(Rng& g, long code, long k, long x) {
    size_t a = (size_t)k - 1, b = (size_t)x - 1;
    int res = 0; bool hdr = false; long id = 0;
    cur() = "log code " + std::to_string(code);
    res = guarded([&] {
      switch (code) {
        case 1: hdr = g.chance(0.3); if (!hdr && g.chance(0.5)) slot[a].reset(new Log::Log(path[b])); else slot[a].reset(new Log::Log(path[b], hdr)); break;
        case 2: slot[a].reset(new Log::Log(*slot[b])); break;
        case 3: slot[a].reset(new Log::Log(std::move(*slot[b]))); break;
        case 4: *slot[a] = *slot[b]; break;
        case 5: *slot[a] = std::move(*slot[b]); break;
        case 6: slot[a].reset(); break;
        default: {
          id = next_id++;
          std::string head = "m" + std::to_string(id) + ";";
          int how = (int)g.in(0, 5);
          if (how == 0) { text[id] = head + payload(g); slot[a]->logMessage(text[id]); }
          else if (how == 1) { text[id] = head + payload(g); ARC_LOG(*slot[a], text[id]); }
          else if (how == 2) { double d = (double)g.in(-1000000, 1000000) / 7.0; char buf[64]; snprintf(buf, sizeof buf, "%.12g", d); text[id] = head + buf + "|"; ARC_LOG_STREAM(*slot[a], head << d << "|"); }
          else if (how == 3) { text[id] = head + payload(g); ARC_LOG_COND(*slot[a], id > 0, text[id]); }
          else if (how == 4) { text[id] = head; ARC_LOG_COND_STREAM(*slot[a], id > 0, "m" << id << ";"); }
          else { text[id] = head; ARC_LOG_COND(*slot[a], id < 0, text[id]); ARC_LOG_COND_STREAM(*slot[a], id < 0, head << 1); id = -id; }
        }
      }
    });
    dump("log", code, k, x, res, hdr, id);
  }
  void dump(const char* o, long code, long k, long x, int res, bool hdr, long id) {
    VV f; for (auto& p : path) f.push_back(content(p));
    Ev(o).f("code", code).f("k", k).f("x", x).f("res", res).f("hdr", hdr).f("id", id).f("files", f).emit();
  }
};
}  // namespace logs
static void logging() {
  using namespace logs;
  Rng g(seed() + 31);
  long dirno = 0;
  auto paths = [&](long n) {
    VS p; std::string base = workdir() + "/l" + std::to_string(dirno++);
    for (long k = 0; k < n; k++) p.push_back(k == 0 ? base + "/deep/er/one.txt" : k == 1 ? (dirno % 3 == 0 ? "rel" + std::to_string(dirno) + "/two.txt" : dirno % 3 == 1 ? "./rel" + std::to_string(dirno) + "/er/two.txt" : base + "/two.txt") : "bare" + std::to_string(dirno) + ".txt");
    return p;
  };
  if (chdir(workdir().c_str())) return;
  auto scen = [&](const VL& h, size_t slots, long files) {
    begin("log");
    text.clear(); next_id = 1;
    World w(slots, paths(files));
    Ev("logs").f("slots", (long)slots).f("files", files).emit();
    for (size_t k = 0; k + 2 < h.size(); k += 3) w.op(g, h[k], h[k + 1], h[k + 2]);
  };
  for (auto& l : gen_lines()) scen(ints(l), 3, 2);
  for (long k = 0, K = scale(60, 800); k < K; k++) {  // random histories over more slots and files
    begin("log");
    text.clear(); next_id = 1;
    size_t S = (size_t)g.in(2, 5); long F = g.in(1, 3);
    World w(S, paths(F));
    Ev("logs").f("slots", (long)S).f("files", F).emit();
    std::vector<int> st(S, 0);  // 0 none, 1 open, 2 moved
    for (long s = g.in(10, 40); s--;) {
      std::vector<size_t> open, none, have;
      for (size_t a = 0; a < S; a++) { if (st[a] == 1) open.push_back(a); if (st[a] == 0) none.push_back(a); else have.push_back(a); }
      long c = g.pick(std::vector<long>{1, 2, 3, 4, 5, 6, 7, 7, 7, 7, 7});
      if (open.empty() && c != 1) { if (have.size() == S) c = 6; else c = 1; }
      size_t a = 0, b = open.empty() ? 0 : g.pick(open);
      if (c <= 3) { if (none.empty()) continue; a = g.pick(none); } else if (c <= 6) a = g.pick(have); else a = g.pick(open);
      if (c == 5 && a == b) continue;
      w.op(g, c, (long)a + 1, c == 1 ? g.in(1, F) : (long)b + 1);
      if (c == 6) st[a] = 0; else st[a] = 1;
      if (c == 3 || c == 5) st[b] = 2;
    }
  }
  for (long k = 0, K = scale(10, 100); k < K; k++) {  // one log, several threads
    begin("log");
    text.clear(); next_id = 1;
    World w(1, paths(1));
    Ev("logs").f("slots", 1).f("files", 1).emit();
    w.op(g, 1, 1, 1);
    long T = g.in(2, 6), M = g.in(10, 60);
    VV per((size_t)T);
    for (long t = 0; t < T; t++) for (long q = 0; q < M; q++) { long id = next_id++; text[id] = "m" + std::to_string(id) + ";" + payload(g); per[(size_t)t].push_back(id); }
    std::vector<std::thread> th;
    cur() = "log threads";
    for (long t = 0; t < T; t++) th.emplace_back([&, t] { for (long id : per[(size_t)t]) w.slot[0]->logMessage(text.at(id)); });
    for (auto& t : th) t.join();
    Ev("logpar").f("per", per).f("out", content(w.path[0])).emit();
  }
  begin("log");
  Ev("logs").f("slots", 1).f("files", 1).emit();
  { std::ofstream f(workdir() + "/plainfile"); f << "x"; }
  for (const std::string& bad : VS{workdir(), workdir() + "/plainfile/x.txt", std::string(300, 'n') + ".txt", ""}) {
    cur() = "log open " + bad;
    int res = guarded([&] { Log::Log l(bad); });
    Ev("logbad").f("res", res).emit();
  }
  Ev("logbad").f("res", slurp(workdir() + "/plainfile") == "x" ? 1 : 0).emit();
}
// ------------------------------------------------------------------ M01
template <typename T> struct Conv;
template <> struct Conv<int> { static int mk(long v) { return (int)v; } static long un(int v) { return v; } };
template <> struct Conv<std::string> { static std::string mk(long v) { return std::string((size_t)v * 7, 'q') + std::to_string(v); } static long un(const std::string& s) { for (long v = 0; v < 200; v++) if (mk(v) == s) return v; return -1; } };
template <> struct Conv<std::vector<double>> { static std::vector<double> mk(long v) { return std::vector<double>((size_t)v % 9 + 1, (double)v); } static long un(const std::vector<double>& s) { for (long v = 0; v < 200; v++) if (mk(v) == s) return v; return -1; } };
template <> struct Conv<std::shared_ptr<int>> { static std::shared_ptr<int> mk(long v) { return std::make_shared<int>((int)v); } static long un(const std::shared_ptr<int>& s) { return s ? *s : -1; } };
template <typename T> static void maybe_run(const VL& h, size_t S) {
  begin("maybe");
  using M = Maybe::Maybe<T>;
  std::vector<M> m(S);
  Ev("maybes").f("slots", (long)S).emit();
  for (size_t q = 0; q + 2 < h.size(); q += 3) {
    long code = h[q], x = h[q + 2]; size_t a = (size_t)h[q + 1] - 1, b = (size_t)x - 1;
    cur() = "maybe code " + std::to_string(code);
    int res = guarded([&] {
      switch (code) {
        case 1: m[a] = M(); break;
        case 2: { const T v = Conv<T>::mk(x); m[a] = M(v); break; }
        case 3: { M fresh(Conv<T>::mk(x)); m[a] = fresh; break; }
        case 4: { const T v = Conv<T>::mk(x); m[a] = v; break; }
        case 5: m[a] = Conv<T>::mk(x); break;
        case 6: { if (x % 2) { const T v = Conv<T>::mk(x); m[a].Set(v); } else m[a].Set(Conv<T>::mk(x)); break; }
        case 7: m[a] = m[b]; break;
        case 8: { const M c(m[b]); m[a] = c; break; }
        case 9: m[a] = std::move(m[b]); break;
        case 10: { M c(std::move(m[b])); m[a] = std::move(c); break; }
        default: m[a].Get() = Conv<T>::mk(x);
      }
    });
    VV d;
    for (size_t k = 0; k < S; k++) {
      long v1 = -1, v2 = -1; int r1 = 0, r2 = 0;
      auto look = [&](auto f, long& v) { try { v = Conv<T>::un(f()); return 0; } catch (const std::invalid_argument&) { return 1; } catch (...) { return 2; } };
      r1 = look([&]() -> const T& { return m[k].Get(); }, v1);
      const M& c = m[k];
      r2 = look([&]() -> const T& { return c.GetImmutable(); }, v2);
      d.push_back({c.Valid() ? 1 : 0, r1, v1, r2, v2});
    }
    Ev("maybe").f("code", code).f("k", (long)a + 1).f("x", x).f("res", res).f("dump", d).emit();
  }
}
static void maybes() {
  Rng g(seed() + 32);
  long n = 0;
  auto any = [&](const VL& h, size_t S) { switch (n++ % 4) { case 0: maybe_run<int>(h, S); break; case 1: maybe_run<std::string>(h, S); break; case 2: maybe_run<std::vector<double>>(h, S); break; default: maybe_run<std::shared_ptr<int>>(h, S); } };
  for (auto& l : gen_lines()) any(ints(l), 3);
  for (long k = 0, K = scale(100, 1000); k < K; k++) {
    VL h; size_t S = (size_t)g.in(2, 5); std::vector<int> st(S, 0);  // 0 empty 1 some 2 moved
    for (long s = 0; s < 60; s++) {
      long c = g.in(1, 11), a = g.below((long)S), b = g.below((long)S);
      if (c >= 7 && c <= 10 && (st[(size_t)b] == 2 || (c >= 9 && a == b))) continue;
      if (c == 11 && st[(size_t)a] != 1) continue;
      h.push_back(c); h.push_back(a + 1); h.push_back(c >= 7 && c <= 10 ? b + 1 : s + 1);
      if (c == 1) st[(size_t)a] = 0; else if (c <= 6) st[(size_t)a] = 1; else if (c <= 10) { int o = st[(size_t)b]; if (c >= 9) st[(size_t)b] = 2; st[(size_t)a] = o; }
    }
    any(h, S);
  }
}
int main(int argc, char** argv) {
  std::string m = argc > 1 ? argv[1] : "";
  freopen("/dev/null", "w", stderr);
  vt::open();
  if (m == "prof") profiler();
  else if (m == "log") logging();
  else maybes();
  done();
}

// Shared harness runtime: deterministic cases, three-valued verdicts, counters.
// Every harness defines   void run_case(Case&)   and includes this header last.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf
{
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x)
  {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  Rng(uint64_t seed, uint64_t stream)
  {
    uint64_t x = seed * 0x2545F4914F6CDD1DULL + 0x1234567;
    uint64_t a = mix(x);
    x = a ^ (stream * 0xD1342543DE82EF95ULL + 0x9999);
    s[0] = mix(x);
    s[1] = mix(x);
  }
  uint64_t u64()
  {
    uint64_t s1 = s[0], s0 = s[1], r = s0 + s1;
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
  }
  // [0,n)
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  double gauss()
  {
    double u = unit(), v = unit();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  // magnitudes spread over decades, both signs, sometimes exactly 0
  double logmag(double lo_exp, double hi_exp)
  {
    if (chance(0.05)) return 0.0;
    double m = std::pow(10.0, uni(lo_exp, hi_exp));
    return chance(0.5) ? m : -m;
  }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  double angle()
  {
    switch (below(6)) {
      case 0: return uni(-3.1415926, 3.1415926);
      case 1: return (double)range(-8, 8) * (3.14159265358979323846 / 4);
      case 2: return uni(-40, 40);
      case 3: return logmag(-9, 0);
      case 4: return (double)range(-3, 3) * 3.14159265358979323846 + logmag(-12, -3);
      default: return uni(-7, 7);
    }
  }
};

struct Fail : std::exception {
  std::string key, msg;
  Fail(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};

inline std::string jesc(const std::string &s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

struct Case {
  uint64_t seed, index;
  bool thorough;
  Rng rng;
  std::ostringstream trace;                 // what was done: becomes the witness
  std::map<std::string, uint64_t> events;   // what the monitor observed
  bool nontrivial = false;
  uint64_t sig = 1469598103934665603ULL;    // signature of the case, for distinctness
  bool verbose = false;
  Case(uint64_t sd, uint64_t i, bool th) : seed(sd), index(i), thorough(th), rng(sd, i)
  {
    trace.precision(17);
  }
  void sigadd(uint64_t v) { for (int k = 0; k < 8; ++k) { sig ^= (v >> (8 * k)) & 255; sig *= 1099511628211ULL; } }
  void sigadd(double d) { uint64_t v; std::memcpy(&v, &d, 8); sigadd(v); }
  void ev(const char *name, uint64_t n = 1) { events[name] += n; }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Fail(key, msg); }
  template <typename... A> void check(bool ok, const char *key, const A &... a)
  {
    ev("oracle_checks");
    if (ok) return;
    std::ostringstream os;
    os.precision(17);
    int dummy[] = {0, ((void)(os << a << ' '), 0)...};
    (void)dummy;
    throw Fail(key, os.str());
  }
};

struct Shared {
  volatile uint64_t current;
  volatile uint64_t in_case;
  volatile char family[96];
};
inline Shared *&shared() { static Shared *p = nullptr; return p; }
inline void family(const char *f)
{
  if (!shared()) return;
  size_t i = 0;
  for (; f[i] && i < 90; ++i) shared()->family[i] = f[i];
  shared()->family[i] = 0;
}
inline void on_cpu_limit(int)
{
  const char m[] = "VERIF-HANG\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(97);
}
inline double angdiff(double a, double b)
{
  return std::fabs(std::remainder(a - b, 6.283185307179586476925286766559));
}
}  // namespace vf
using vf::Case;
using vf::Rng;

void run_case(Case &c);

#ifndef VERIF_NO_MAIN
int main(int argc, char **argv)
{
  uint64_t seed = 1, from = 0, count = 1;
  double cpu = 20;
  bool thorough = false, verbose = false;
  std::string out, prog;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--from") from = std::stoull(val());
    else if (a == "--count") count = std::stoull(val());
    else if (a == "--out") out = val();
    else if (a == "--progress") prog = val();
    else if (a == "--cpu") cpu = std::stod(val());
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") verbose = true;
  }
  FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!fo) return 90;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(vf::Shared)) != 0) return 91;
    vf::shared() = (vf::Shared *)mmap(nullptr, sizeof(vf::Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (vf::shared() == MAP_FAILED) return 92;
    close(fd);
  }
  signal(SIGPROF, vf::on_cpu_limit);
  std::map<std::string, uint64_t> total;
  std::unordered_set<uint64_t> distinct;
  uint64_t nontriv = 0, done = 0;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> failcount;
  for (uint64_t i = from; i < from + count; ++i) {
    if (vf::shared()) {
      vf::shared()->current = i;
      vf::shared()->in_case = 1;
      vf::family("");
    }
    itimerval tv{};
    tv.it_value.tv_sec = (long)cpu;
    setitimer(ITIMER_PROF, &tv, nullptr);
    Case c(seed, i, thorough);
    c.verbose = verbose;
    try {
      run_case(c);
    } catch (const vf::Fail &f) {
      if (failcount[f.key]++ < 3) {
        fprintf(fo, "{\"t\":\"viol\",\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\"}\n",
                (unsigned long long)i, vf::jesc(f.key).c_str(), vf::jesc(f.msg).c_str(),
                vf::jesc(c.trace.str().substr(0, 6000)).c_str());
        fflush(fo);
      }
    } catch (const std::exception &e) {
      if (failcount["unexpected-exception"]++ < 3) {
        fprintf(fo, "{\"t\":\"viol\",\"case\":%llu,\"key\":\"unexpected-exception\",\"msg\":\"%s\",\"trace\":\"%s\"}\n",
                (unsigned long long)i, vf::jesc(e.what()).c_str(), vf::jesc(c.trace.str().substr(0, 6000)).c_str());
        fflush(fo);
      }
    }
    tv.it_value.tv_sec = 0;
    setitimer(ITIMER_PROF, &tv, nullptr);
    ++done;
    for (auto &e : c.events) total[e.first] += e.second;
    if (c.nontrivial) {
      ++nontriv;
      distinct.insert(c.sig);
      if (samples.size() < 3) samples.push_back(c.trace.str().substr(0, 700));
    }
    if (verbose) printf("case %llu\n%s\n", (unsigned long long)i, c.trace.str().c_str());
  }
  if (vf::shared()) vf::shared()->in_case = 0;
  for (auto &e : total)
    fprintf(fo, "{\"t\":\"ev\",\"name\":\"%s\",\"n\":%llu}\n", vf::jesc(e.first).c_str(), (unsigned long long)e.second);
  for (auto &s : samples) fprintf(fo, "{\"t\":\"sample\",\"s\":\"%s\"}\n", vf::jesc(s).c_str());
  fprintf(fo, "{\"t\":\"sigs\",\"v\":[");
  bool first = true;
  for (auto s : distinct) { fprintf(fo, "%s%llu", first ? "" : ",", (unsigned long long)s); first = false; }
  fprintf(fo, "]}\n");
  fprintf(fo, "{\"t\":\"done\",\"cases\":%llu,\"nontrivial\":%llu}\n", (unsigned long long)done, (unsigned long long)nontriv);
  fclose(fo);
  return 0;
}
#endif
#endif

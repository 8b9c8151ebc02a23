// Shared runtime of the replay drivers: case bookkeeping, hex, seeded random choice.
// A driver registers operations; a case is one line  "<op> <arg> <arg> ..."  (arguments hex encoded where binary).
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <unistd.h>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <memory>
#include <vector>
#include <cxxabi.h>

namespace rt {
typedef std::vector<std::string> Args;

inline std::string& current() { static std::string c; return c; }
inline long& count() { static long n = 0; return n; }
inline std::set<std::string>& seen() { static std::set<std::string> s; return s; }
inline long& failures() { static long n = 0; return n; }
inline std::map<std::string, long>& per_op() { static std::map<std::string, long> m; return m; }

inline std::string hex(const std::string& s)
{
  static const char d[] = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r.empty() ? "-" : r;
}
inline std::string unhex(const std::string& h)
{
  if (h == "-") return "";
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(strtol(h.substr(i, 2).c_str(), 0, 16));
  return r;
}
inline std::string show(const std::string& s)
{
  std::string r = "\"";
  size_t n = 0;
  for (unsigned char c : s) {
    if (++n > 400) { r += "..."; break; }
    if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += c;
  }
  return r + "\"";
}

struct Fail { std::string msg; };
inline void fail(const std::string& m) { throw Fail{m}; }
inline void expect(bool c, const std::string& m) { if (!c) throw Fail{m}; }
template <class A, class B> void expect_eq(const A& got, const B& want, const std::string& what)
{
  if (!(got == want)) { std::ostringstream o; o << what << ": expected " << want << ", got " << got; throw Fail{o.str()}; }
}
inline void expect_str(const std::string& got, const std::string& want, const std::string& what)
{
  if (got != want) throw Fail{what + ": expected " + show(want) + ", got " + show(got)};
}

inline std::string exc_name()
{
  std::type_info* t = abi::__cxa_current_exception_type();
  if (!t) return "unknown";
  int st; char* p = abi::__cxa_demangle(t->name(), 0, 0, &st);
  std::string r = p ? p : t->name(); free(p); return r;
}
// runs f; result is "" or the name of the exception it threw
template <class F> std::string thrown(F f)
{
  try { f(); return ""; } catch (const Fail&) { throw; } catch (...) { return exc_name(); }
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  unsigned upto(unsigned n) { return n ? unsigned((next() >> 33) % n) : 0; }       // [0,n)
  bool coin(unsigned n = 2) { return upto(n) == 0; }
  template <class C> const typename C::value_type& pick(const C& c) { return c[upto(c.size())]; }
  std::string bytes(unsigned n) { std::string r; while (n--) r += char(upto(256)); return r; }
  std::string from(const std::string& alpha, unsigned n) { std::string r; while (n--) r += alpha[upto(alpha.size())]; return r; }
};

// string and integer literals of the library's current sources
inline void literals(std::vector<std::string>& w, std::vector<long long>& n)
{
  const char* f = getenv("VERIF_LITERALS");
  FILE* h = f ? fopen(f, "r") : 0;
  if (!h) return;
  char b[512];
  while (fgets(b, sizeof b, h)) {
    std::string l(b + 2);
    while (!l.empty() && l.back() == '\n') l.pop_back();
    if (b[0] == 's') w.push_back(unhex(l)); else n.push_back(atoll(l.c_str()));
  }
  fclose(h);
}
inline const std::vector<std::string>& lit_words() { static std::vector<std::string> w; static std::vector<long long> n; static bool done = false; if (!done) { done = true; literals(w, n); } return w; }
inline const std::vector<long long>& lit_nums() { static std::vector<std::string> w; static std::vector<long long> n; static bool done = false; if (!done) { done = true; literals(w, n); } return n; }
// those made only of the given kind of characters
// sizes worth trying, around powers of two and ten and around the numbers in the source
inline std::vector<unsigned> sizes(unsigned most)
{
  std::vector<unsigned> r;
  auto near = [&](long long n) { for (long long k = n - 1; k <= n + 1; k++) if (k >= 0 && k <= (long long)most) r.push_back(unsigned(k)); };
  for (long long n = 1; n <= (long long)most; n *= 2) near(n);
  for (long long n = 10; n <= (long long)most; n *= 10) near(n);
  for (long long n : lit_nums()) near(n);
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
inline std::vector<std::string> lit_names(const char* more = "._-") { std::vector<std::string> r; for (auto& w : lit_words()) { bool ok = !w.empty(); for (unsigned char c : w) if (!isalnum(c) && !strchr(more, c)) ok = false; if (ok) r.push_back(w); } return r; }

typedef std::function<void(const Args&)> Op;
inline std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }

inline void put(const std::string& s) { if (write(1, s.data(), s.size()) < 0) {} }
inline void died(const char* why)
{
  static int once = 0;
  if (once++) return;
  put("FAIL " + current() + "\n  " + why + "\n");
}
inline void on_signal(int s)
{
  died(s == SIGALRM ? "did not finish in time" : s == SIGABRT ? "program aborted" : s == SIGPIPE ? "killed by SIGPIPE" : "program crashed (signal)");
  _exit(1);
}
inline void on_terminate() { died("std::terminate: uncaught exception"); _exit(1); }

inline unsigned& limit() { static unsigned n = 40; return n; }
// run one case; records the failure and carries on
inline bool run(const std::string& line)
{
  std::istringstream is(line);
  std::string op, a;
  is >> op;
  Args v;
  while (is >> a) v.push_back(a);
  auto it = ops().find(op);
  if (it == ops().end()) { fprintf(stderr, "unknown operation %s\n", op.c_str()); exit(3); }
  current() = line;
  alarm(limit());
  count()++;
  per_op()[op]++;
  try { it->second(v); }
  catch (const Fail& f) {
    alarm(0);
    failures()++;
    if (failures() <= 20) put("FAIL " + line + "\n  " + f.msg + "\n");
    return false;
  }
  catch (...) {
    alarm(0);
    failures()++;
    std::string n = exc_name();
    std::string w;
    try { throw; } catch (const std::exception& e) { w = e.what(); } catch (...) {}
    if (failures() <= 20) put("FAIL " + line + "\n  unexpected exception " + n + " " + show(w) + "\n");
    return false;
  }
  alarm(0);
  return true;
}

// argv: battery <seed> <quick|thorough>   |   case <file with one case per line>
inline int main_(int argc, char** argv, void (*battery)(Rng&, bool))
{
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(s, on_signal);
  std::set_terminate(on_terminate);
  setvbuf(stdout, 0, _IOLBF, 0);
  if (argc >= 4 && std::string(argv[1]) == "battery") {
    Rng r(strtoull(argv[2], 0, 10));
    battery(r, std::string(argv[3]) == "thorough");
  } else if (argc >= 3 && std::string(argv[1]) == "case") {
    FILE* f = fopen(argv[2], "r");
    if (!f) return 3;
    char* l = 0; size_t n = 0; ssize_t k;
    while ((k = getline(&l, &n, f)) > 0) {
      while (k && (l[k-1] == '\n' || l[k-1] == '\r')) l[--k] = 0;
      if (k && l[0] != '#') run(l);
    }
    fclose(f);
  } else return 3;
  std::ostringstream o;
  o << "DONE cases=" << count() << " failures=" << failures();
  for (auto& p : per_op()) o << " " << p.first << "=" << p.second;
  put(o.str() + "\n");
  return failures() ? 1 : 0;
}
} // namespace rt

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error();
extern "C" void __asan_on_error() { rt::died("memory error (AddressSanitizer)"); }
extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=1:handle_segv=1:allocator_may_return_null=1:alloc_dealloc_mismatch=0"; }
extern "C" const char* __ubsan_default_options();
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0"; }
#endif

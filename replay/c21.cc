// C21: real pools of worker threads under delayed schedules (built with ThreadSanitizer: unsynchronised accesses and inverted lock orders are failures).
//   order <n>            n calls queued for one worker
//   many <w> <t> <n>     w workers, t threads queueing n calls each
//   shut <w> <n> <us>    destroyed after us microseconds with calls running and queued
//   idle <w> <k> <us>    k pools of w workers destroyed after us microseconds
//   inside <w>           a method queues another call and waits for it
//   late <w> <n>         workers added after the calls
#include "rt.h"
#include <atomic>
#include <thread>
#include <mutex>
#include <dlfcn.h>
#include <pthread.h>
#include "libiqxmlrpc/libiqxmlrpc.h"
#include "libiqxmlrpc/executor.h"
#include "libiqxmlrpc/http_server.h"
#include "libiqxmlrpc/server_conn.h"
using namespace rt;
using namespace iqxmlrpc;

// ---- the library's threads are slowed down where they synchronise
static std::atomic<int> delays(0), raced(0);
static void nap()
{
  static thread_local unsigned s = 0;
  static std::atomic<unsigned> seed(1);
  if (!delays) return;
  if (!s) s = seed.fetch_add(7919) * 2654435761u + 1;
  s = s * 1664525u + 1013904223u;
  unsigned k = (s >> 16) % 8;
  if (k < 3) usleep((s >> 20) % (k == 0 ? 1500 : 150));
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
  static int (*f)(pthread_mutex_t*) = 0;
  if (!f) f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  nap();
  return f(m);
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c)
{
  static int (*f)(pthread_cond_t*) = 0;
  if (!f) f = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast");
  nap();
  return f(c);
}
extern "C" void __tsan_on_report(const void*) { ++raced; }
extern "C" const char* __tsan_default_options() { return "exitcode=0:report_thread_leaks=0:detect_deadlocks=1:second_deadlock_stack=0:halt_on_error=0"; }

// ---- calls that say what happens to them
struct Log { std::mutex m; std::vector<int> runs, answers; std::map<int, int> freed; bool over; Log(): over(false) {}
  void ran(int k) { std::lock_guard<std::mutex> l(m); if (over) raced = 1000; runs.push_back(k); }
  void answered(int k) { std::lock_guard<std::mutex> l(m); answers.push_back(k); }
  void gone(int k) { std::lock_guard<std::mutex> l(m); ++freed[k]; } };
struct M: Method { Log* g; int k; std::function<void()> body; M(Log* l, int n): g(l), k(n) {} ~M() { g->gone(k); }
  void execute(const Param_list& p, Value& r) { g->ran(p.empty() || p[0].get_int() != k ? -1 : k); if (body) body(); r = k; } };
struct C: Server_connection { Log* g; int k; C(Log* l, int n): Server_connection(iqnet::Inet_addr("127.0.0.1", 1)), g(l), k(n) { keep_alive = true; }
  void do_schedule_response() { g->answered(k); } };
struct World {
  Serial_executor_factory sf; Http_server srv; Log log; std::vector<std::unique_ptr<C>> conns; std::mutex m;
  World(): srv(iqnet::Inet_addr("127.0.0.1", 1), &sf) {}
  void add(Pool_executor_factory& p, int k, std::function<void()> body = 0)
  {
    C* c = new C(&log, k);
    { std::lock_guard<std::mutex> l(m); conns.emplace_back(c); }
    M* me = new M(&log, k);
    me->body = body;
    Param_list a; a.push_back(k);
    p.create(me, &srv, c)->execute(a);
    a.clear();
  }
  size_t done() { std::lock_guard<std::mutex> l(log.m); return log.answers.size(); }
  void wait(size_t n) { for (int i = 0; i < 8000 && done() < n; ++i) usleep(1000); }
  void settle(size_t n) { wait(n); for (int i = 0; i < 8000; ++i) { size_t f; { std::lock_guard<std::mutex> l(log.m); f = log.freed.size(); } if (f >= n) break; usleep(1000); } }
};
static void races() { expect(!raced, raced >= 1000 ? "a call ran after the pool was destroyed" : "unsynchronised access or inverted lock order"); }
static void once(World& w, int n, bool all)
{
  std::lock_guard<std::mutex> l(w.log.m);
  std::map<int, int> r, a;
  for (int k : w.log.runs) { expect(k >= 0, "a call ran with the wrong parameters"); expect_eq(++r[k], 1, "executions of call " + std::to_string(k)); }
  for (int k : w.log.answers) expect_eq(++a[k], 1, "answers to call " + std::to_string(k));
  for (int k = 0; k < n; ++k) {
    if (all) expect_eq(r[k], 1, "executions of call " + std::to_string(k));
    expect_eq(a[k], r[k], "answers to call " + std::to_string(k));
    expect_eq(w.log.freed[k], 1, "frees of call " + std::to_string(k));
  }
}
static int num(const Args& a, size_t i) { return atoi(a.at(i).c_str()); }
static void order(const Args& a)
{
  World w; int n = num(a, 0); std::atomic<bool> go(false);
  {
    Pool_executor_factory p(1);
    w.add(p, 0, [&] { while (!go) usleep(500); });
    for (int k = 1; k < n; ++k) w.add(p, k);
    go = true;
    w.settle(n);
  }
  once(w, n, true);
  for (int k = 0; k < n; ++k) expect_eq(w.log.runs[k], k, "call started as number " + std::to_string(k));
  races();
}
static void many(const Args& a)
{
  World w; int nw = num(a, 0), t = num(a, 1), n = num(a, 2);
  {
    Pool_executor_factory p(nw);
    std::vector<std::thread> ts;
    for (int i = 0; i < t; ++i) ts.emplace_back([&, i] { for (int k = 0; k < n; ++k) w.add(p, i * n + k); });
    for (auto& x : ts) x.join();
    w.settle(size_t(n * t));
  }
  once(w, n * t, true);
  races();
}
static void shut(const Args& a)
{
  World w; int nw = num(a, 0), n = num(a, 1), us = num(a, 2);
  {
    Pool_executor_factory p(nw);
    for (int k = 0; k < n; ++k) w.add(p, k, [] { usleep(300); });
    usleep(us);
  }
  { std::lock_guard<std::mutex> l(w.log.m); w.log.over = true; }
  usleep(2000);
  once(w, n, false);
  races();
}
static void idle(const Args& a)
{
  int nw = num(a, 0), k = num(a, 1), us = num(a, 2);
  for (int i = 0; i < k; ++i) { Pool_executor_factory p(nw); if (us) usleep(us); }
  races();
}
static void inside(const Args& a)
{
  World w; std::atomic<bool> ran(false);
  {
    Pool_executor_factory p(num(a, 0));
    w.add(p, 0, [&] { w.add(p, 1, [&] { ran = true; }); for (int i = 0; i < 4000 && !ran; ++i) usleep(1000); });
    w.settle(2);
  }
  expect(ran, "no other call can run while a method runs");
  once(w, 2, true);
  races();
}
static void late(const Args& a)
{
  World w; int nw = num(a, 0), n = num(a, 1);
  {
    Pool_executor_factory p(0);
    for (int k = 0; k < n; ++k) w.add(p, k);
    usleep(3000);
    expect_eq(w.log.runs.size(), 0u, "calls executed without a worker");
    std::mutex m; std::set<std::thread::id> ids;
    p.add_threads(nw);
    w.settle(n);
    // as many calls at a time as there are workers
    std::atomic<int> in(0), top(0);
    for (int k = n; k < n + nw; ++k) w.add(p, k, [&] { int x = ++in; int t = top; while (t < x && !top.compare_exchange_weak(t, x)) {} for (int i = 0; i < 3000 && top < nw; ++i) usleep(1000); --in; });
    w.settle(n + nw);
    expect_eq(int(top), nw, "calls executed at a time");
  }
  once(w, n + nw, true);
  races();
}
// a case that does not end (signals do not interrupt a thread waiting for a lock here)
static std::atomic<long> since(0);
static void watch() { for (;;) { usleep(100000); long t = since; if (t && time(0) - t > 30) { died("did not finish in time"); _exit(1); } } }
static Op timed(Op f) { return [f](const Args& a) { since = long(time(0)); struct Z { ~Z() { since = 0; } } z; f(a); }; }
static void with(const char* op, int d) { delays = d; run(op); }
static void battery(Rng& g, bool thorough)
{
  for (int d : {0, 1}) {
    for (const char* s : {"order 1", "order 20", "many 1 1 30", "many 4 3 40", "many 8 1 60", "many 2 6 20", "inside 2", "inside 5", "late 1 5", "late 4 10", "late 3 0",
                          "shut 1 10 0", "shut 4 40 0", "shut 4 40 1500", "shut 2 5 20000", "shut 0 5 0", "shut 3 0 0", "shut 8 100 3000", "idle 1 20 0", "idle 4 20 0", "idle 1 20 1000", "idle 3 20 300", "idle 0 3 0"}) with(s, d);
  }
  for (int i = 0, n = thorough ? 200 : 25; i < n; ++i) {
    auto u = [&](unsigned k) { return std::to_string(g.upto(k)); };
    run("idle " + std::to_string(1 + g.upto(4)) + " 8 " + u(1500));
    run("shut " + std::to_string(1 + g.upto(5)) + " " + u(40) + " " + u(4000));
    if (i % 4 == 0) run("many " + std::to_string(1 + g.upto(5)) + " " + std::to_string(1 + g.upto(4)) + " " + u(30));
  }
}
int main(int c, char** v)
{
  limit() = 0;
  std::thread(watch).detach();
  delays = 1;
  ops()["order"] = order; ops()["many"] = many; ops()["shut"] = shut; ops()["idle"] = idle; ops()["inside"] = inside; ops()["late"] = late;
  for (auto& o : ops()) o.second = timed(o.second);
  return main_(c, v, battery);
}

// C17: scripts of registrations, withdrawals, posted events and readiness patterns run through the real event loop;
// what is polled, which handlers are called and what the loop reports is compared with a reference loop.
#include "rt.h"
#include <cerrno>
#include <deque>
#include <poll.h>
#include <stdexcept>
#include <sys/syscall.h>
#include <ctime>
#include <fcntl.h>
#include <boost/thread/mutex.hpp>
#include "libiqxmlrpc/reactor_impl.h"
using namespace rt;
using namespace iqnet;

// ---- the operating system: scripted, or the real one
static bool scripted = false;
static std::string what_poll;            // "T" timeout, "E" interrupted, "N" error, or "h=rev+h=rev"
static std::vector<std::string> trace;
static const int BASE = 1000;
static std::map<int, short> reports(const std::string& s)
{
  std::map<int, short> m;
  std::istringstream is(s); std::string t;
  while (std::getline(is, t, '+')) if (t.find('=') != std::string::npos) m[BASE + atoi(t.c_str())] = short(atoi(t.substr(t.find('=') + 1).c_str()));
  return m;
}
static std::string polled(const std::map<int, short>& m, int to)
{
  std::ostringstream o; o << "poll";
  for (auto& x : m) o << " " << x.first - BASE << ":" << x.second;
  o << " timeout " << to;
  return o.str();
}
extern "C" int poll(struct pollfd* p, nfds_t n, int to)
{
  if (!scripted) return int(syscall(SYS_poll, p, n, to));
  std::map<int, short> m; bool twice = false;
  for (nfds_t i = 0; i < n; ++i) { if (m.count(p[i].fd)) twice = true; m[p[i].fd] = p[i].events; }
  trace.push_back(polled(m, to) + (twice ? " with a descriptor given twice" : ""));
  if (trace.size() > 500) rt::fail("the loop polls again and again");
  if (what_poll == "T") { for (nfds_t i = 0; i < n; ++i) p[i].revents = 0; return 0; }
  if (what_poll == "E") { errno = EINTR; return -1; }
  if (what_poll == "N") { errno = ENOMEM; return -1; }
  auto r = reports(what_poll);
  int k = 0;
  for (nfds_t i = 0; i < n; ++i) { p[i].revents = r.count(p[i].fd) ? r[p[i].fd] : 0; if (p[i].revents) ++k; }
  return k;
}

// ---- the reference loop
struct Act { char c; int h, m; };
struct Entry { int h; short mask, rev; };
struct Model {
  std::deque<Entry> q; int stoppers = 0;
  std::vector<std::deque<std::vector<Act>>> acts; std::vector<bool> catches, stops; std::vector<int> again;
  std::vector<std::string> out; std::string error;
  Entry* find(int h) { for (auto& e : q) if (e.h == h) return &e; return 0; }
  void reg(int h, int m) { if (Entry* e = find(h)) { e->mask |= m; return; } if (stops[h]) ++stoppers; q.push_back({h, short(m), 0}); }
  void unreg(int h) { for (auto i = q.begin(); i != q.end(); ++i) if (i->h == h) { q.erase(i); if (stops[h]) --stoppers; return; } }
  void post(int h, int m) { if (Entry* e = find(h)) e->rev |= m; }
  void step(const Act& a) { if (a.c == 'r') reg(a.h, a.m); if (a.c == 'u' || a.c == 'w') unreg(a.h); if (a.c == 'f') post(a.h, a.m); }
  void deliver(int h, int rev)
  {
    if (!find(h) || !(rev & 3)) return;
    out.push_back((rev & 1 ? "input " : "output ") + std::to_string(h));
    bool term = false; char bad = 0;
    if (!acts[h].empty()) {
      std::vector<Act> v = acts[h].front(); acts[h].pop_front();
      for (auto& a : v) { if (a.c == 't') term = true; else if (a.c == 'e' || a.c == 'x') { bad = a.c; break; } else step(a); }
    }
    if (bad && !catches[h]) { error = bad == 'e' ? "error of the handler" : "number"; return; }
    if (bad) { out.push_back((bad == 'e' ? "log " : "log? ") + std::to_string(h)); term = true; }
    if (term) { unreg(h); out.push_back("finish " + std::to_string(h)); if (again[h]) { int k = again[h]; again[h] = 0; reg(h, k); } }
  }
  std::string turn(const std::string& w, int to)
  {
    error = "";
    if (q.empty()) return "false";
    if (int(q.size()) == stoppers) return "no handlers";
    std::vector<Entry> s;
    for (auto& e : q) { if (e.rev) s.push_back(e); e.rev = 0; }
    for (auto& e : s) { deliver(e.h, e.rev); if (!error.empty()) return error; }
    if (q.empty()) return "true";
    std::map<int, short> m; s.clear();
    for (auto& e : q) { m[BASE + e.h] = (e.mask & 1 ? POLLIN : 0) | (e.mask & 2 ? POLLOUT : 0); s.push_back(e); }
    out.push_back(polled(m, to));
    if (w == "T") return "false";
    if (w == "E") return "true";
    if (w == "N") return "network error";
    auto r = reports(w); bool any = false;
    for (auto& e : s) if (r[BASE + e.h]) any = true;
    if (!any) return "false";
    for (auto& e : s) {
      int x = r[BASE + e.h];
      if (!x) continue;
      deliver(e.h, (x & POLLIN ? 1 : 0) | (x & (POLLOUT | POLLERR | POLLHUP) ? 2 : 0));
      if (!error.empty()) return error;
    }
    return "true";
  }
};

struct Hand: Event_handler {
  int id; Reactor_base* r; std::vector<Hand*>* all; std::deque<std::vector<Act>> acts; bool catches, stops; int mask, again;
  Hand(): id(0), r(0), all(0), catches(false), stops(false), mask(0), again(0) {}
  bool is_stopper() const { return stops; }
  bool catch_in_reactor() const { return catches; }
  Socket::Handler get_handler() const { return BASE + id; }
  void step(const Act& a)
  {
    Hand* h = all->at(a.h);
    if (a.c == 'r') r->register_handler(h, Reactor_base::Event_mask(a.m));
    if (a.c == 'u') r->unregister_handler(h);
    if (a.c == 'w') r->unregister_handler(h, Reactor_base::Event_mask(a.m));
    if (a.c == 'f') r->fake_event(h, Reactor_base::Event_mask(a.m));
  }
  void called(const char* n, bool& t)
  {
    trace.push_back(n + std::to_string(id));
    if (trace.size() > 500) rt::fail("handlers are called again and again");
    if (acts.empty()) return;
    std::vector<Act> v = acts.front(); acts.pop_front();
    for (auto& a : v) { if (a.c == 't') t = true; else if (a.c == 'e') throw std::runtime_error("error"); else if (a.c == 'x') throw 7; else step(a); }
  }
  void handle_input(bool& t) { called("input ", t); }
  void handle_output(bool& t) { called("output ", t); }
  void finish() { trace.push_back("finish " + std::to_string(id)); if (again) { int m = again; again = 0; r->register_handler(this, Reactor_base::Event_mask(m)); } }
  void log_exception(const std::exception&) { trace.push_back("log " + std::to_string(id)); }
  void log_unknown_exception() { trace.push_back("log? " + std::to_string(id)); }
};
static Act act(const std::string& s)
{
  Act a = {s.at(0), 0, 0};
  if (s.size() > 1) a.h = s[1] - '0';
  if (s.size() > 2) a.m = s[2] - '0';
  return a;
}
static const int N = 6;
// script <n|m> step,step,...: r<h><m> u<h> w<h><m> f<h><m>; k<h> catch errors; s<h> stopper; g<h><m> registers itself again when finished; c<h>:<act>+<act> what the next call does; p<timeout>:<what poll says>
static void script(const Args& a)
{
  std::unique_ptr<Reactor_base> r(a.at(0) == "n" ? static_cast<Reactor_base*>(new Reactor<Null_lock>) : new Reactor<boost::mutex>);
  std::vector<Hand> store(N); std::vector<Hand*> hs;
  Model m; m.acts.resize(N); m.catches.resize(N); m.stops.resize(N); m.again.resize(N);
  for (int i = 0; i < N; ++i) { store[i].id = i; store[i].r = r.get(); store[i].all = &hs; hs.push_back(&store[i]); }
  scripted = true;
  struct Off { ~Off() { scripted = false; } } off;
  std::istringstream is(a.at(1)); std::string t; int no = 0;
  while (std::getline(is, t, ',')) {
    ++no;
    std::string at = "step " + std::to_string(no) + " (" + t + "): ";
    if (t[0] == 'k') { m.catches[t[1] - '0'] = store[t[1] - '0'].catches = true; continue; }
    if (t[0] == 's') { m.stops[t[1] - '0'] = store[t[1] - '0'].stops = true; continue; }
    if (t[0] == 'g') { m.again[t[1] - '0'] = store[t[1] - '0'].again = t[2] - '0'; continue; }
    if (t[0] == 'c') {
      std::vector<Act> v; std::istringstream js(t.substr(3)); std::string x;
      while (std::getline(js, x, '+')) v.push_back(act(x));
      m.acts[t[1] - '0'].push_back(v); store[t[1] - '0'].acts.push_back(v);
      continue;
    }
    trace.clear(); m.out.clear();
    std::string res, want;
    if (t[0] == 'p') {
      int to = atoi(t.c_str() + 1); what_poll = t.substr(t.find(':') + 1);
      want = m.turn(what_poll, to);
      try { res = r->handle_events(to) ? "true" : "false"; }
      catch (const Reactor_base::No_handlers&) { res = "no handlers"; }
      catch (const network_error&) { res = "network error"; }
      catch (const std::exception&) { res = "error of the handler"; }
      catch (int) { res = "number"; }
    } else {
      Act c = act(t); m.step(c); hs.at(0)->step(c);
    }
    std::string x, y;
    for (auto& s : trace) x += s + "; ";
    for (auto& s : m.out) y += s + "; ";
    expect_str(x, y, at + "calls");
    expect_str(res, want, at + "result");
  }
}
struct Pipe: Event_handler {
  int fd; std::string got; bool end;
  explicit Pipe(int f): fd(f), end(false) {}
  void handle_input(bool& t) { char b[16]; ssize_t n = read(fd, b, 16); if (n > 0) got += std::string(b, n); else { end = true; t = true; } }
  void handle_output(bool& t) { end = true; t = true; }
  Socket::Handler get_handler() const { return fd; }
};
// real <n|m> <k>: real pipes, the real system call
static void real(const Args& a)
{
  std::unique_ptr<Reactor_base> r(a.at(0) == "n" ? static_cast<Reactor_base*>(new Reactor<Null_lock>) : new Reactor<boost::mutex>);
  int k = atoi(a.at(1).c_str());
  std::vector<std::unique_ptr<Pipe>> h; std::vector<int> w;
  for (int i = 0; i < k; ++i) { int p[2]; if (pipe(p)) rt::fail("pipe"); h.emplace_back(new Pipe(p[0])); w.push_back(p[1]); r->register_handler(h.back().get(), Reactor_base::INPUT); }
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  expect(!r->handle_events(30), "events reported although nothing happened");
  clock_gettime(CLOCK_MONOTONIC, &t1);
  long ms = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
  expect(ms >= 29, "timeout too early");
  for (int i = 0; i < k; i += 2) if (write(w[i], "ab", 2) != 2) rt::fail("write");
  expect(r->handle_events(2000), "timeout although a handler was ready");
  for (int i = 0; i < k; ++i) expect_str(h[i]->got, i % 2 ? "" : "ab", "what the handler got");
  for (int i = 0; i < k; ++i) close(w[i]);
  for (int i = 0; i < 2 * k + 2 && r->handle_events(0); ++i) {}
  for (int i = 0; i < k; ++i) expect(h[i]->end, "a handler was not told that its peer is gone");
  expect(!r->handle_events(0), "handlers left after all have ended");
  for (int i = 0; i < k; ++i) close(h[i]->fd);
}
static void battery(Rng& g, bool thorough)
{
  for (const char* lk : {"n", "m"}) {
    for (const char* s : {"r01,p5:0=1,u0,p5:0=1", "r01,r02,p7:0=5,p7:0=4,p7:0=1", "r03,p-1:T,p-1:E,p-1:N,p-1:0=1", "r01,w01,p3:0=1,r02,p3:0=4", "r01,f01,p1:T,p1:T", "r01,f02,p1:0=1,p1:T",
                          "r01,f03,p1:T", "r01,r11,c0:u1,p1:0=1+1=1,p1:1=1", "r01,r11,r21,c0:u1+u2,p1:0=1+1=1+2=1,p1:T", "r01,r11,f01,f11,c0:u1,p1:T,p1:T", "r01,c0:t,p1:0=1,p1:0=1", "r02,c0:t,p1:0=4,r02,p1:0=4",
                          "k0,r01,r11,c0:e,p1:0=1+1=1,p1:0=1+1=1", "k0,r01,r11,c0:x,p1:0=1+1=1,p1:0=1+1=1", "r01,r11,c0:e,p1:0=1+1=1,p1:0=1+1=1", "r01,r11,c0:x,p1:0=1+1=1,p1:0=1", "s0,r01,p1:T,r11,p1:1=1,u1,p1:T,u0,p1:T",
                          "r01,p1:0=8,p1:0=16,p1:0=17,p1:0=32,p1:0=24", "r01,c0:u0+r02,p1:0=1,p1:0=4", "r01,c0:r11+f11,p1:0=1,p1:T,p1:T", "r01,f01,c0:f01,p1:T,p1:T,p1:T", "r01,c0:t+u0,p1:0=1,p1:T", "k0,r01,c0:u0+e,p1:0=1,p1:T",
                          "r01,r11,r21,r31,r41,r51,p9:0=1+2=1+4=1+5=4,u2,p9:2=1+3=1,u0,u5,p9:1=1+4=1,u1,u3,u4,p9:T", "u0,p1:T,f01,p1:T,r01,p1:T", "r01,f01,c0:u0,p1:0=1,p1:T", "r01,r11,f01,u0,p1:T,r01,p1:T",
                          "s0,s1,r01,r11,p1:T,r21,p1:0=1+2=1,u0,p1:T,u2,p1:T", "g01,r01,r11,c0:t,p1:0=1,p1:0=1", "g02,r01,r11,c0:t,p1:0=1,p1:0=4", "g01,k0,r01,r11,c0:e,p1:0=1,p1:0=1", "g01,r01,f01,c0:t,p1:T,p1:0=1", "s0,r01,w03,r11,p1:1=1,p1:T", "s0,r01,r11,w03,p1:1=1", "s0,r01,u0,r11,p1:1=1", "s0,r01,r11,c1:w03,p1:1=1,p1:1=1", "s0,r01,r11,c0:t,p1:0=1,p1:1=1", "s0,k0,r01,r11,c0:e,p1:0=1,p1:1=1", "r01,c0:t,f01,p1:0=1,p1:T", "r01,r02,w03,p1:T", "k0,k1,r01,r11,c0:e,c1:x,p1:0=1+1=1,p1:T", "r01,r11,c0:u1+r12,p1:0=1+1=1,p1:1=4"})
      run(std::string("script ") + lk + " " + s);
    for (int k : {1, 2, 5}) run(std::string("real ") + lk + " " + std::to_string(k));
  }
  for (unsigned i = 0, n = thorough ? 20000 : 3000; i < n; ++i) {
    std::string s; int mask[N] = {0}; std::set<int> st;
    auto d = [&](unsigned n) { return std::to_string(g.upto(n)); };
    for (int h = 0; h < N; ++h) { if (g.coin(3)) s += "k" + std::to_string(h) + ","; if (g.coin(6)) s += "g" + std::to_string(h) + std::to_string(1 + g.upto(3)) + ","; if (g.coin(12)) { s += "s" + std::to_string(h) + ","; st.insert(h); } }
    (void)mask;
    auto hh = [&]() { return std::to_string(g.upto(4)); };
    for (unsigned k = 3 + g.upto(14); k; --k) {
      unsigned w = g.upto(12);
      int h = int(g.upto(N));
      if (w < 3) { if (st.count(h) && mask[h]++) continue; s += "r" + std::to_string(h) + std::to_string(1 + g.upto(3)); }
      else if (w == 3) { if (st.count(h)) continue; s += "u" + std::to_string(h); }
      else if (w == 4) { if (st.count(h)) continue; s += "w" + std::to_string(h) + "3"; }
      else if (w == 5) s += "f" + hh() + std::to_string(1 + g.upto(3));
      else if (w < 8) {
        s += "c" + hh() + ":";
        for (unsigned q = 1 + g.upto(3); q; --q) {
          const char* all = "tuwrfex"; char c = all[g.upto(7)]; s += c;
          int x = int(g.upto(N)); while (st.count(x)) x = (x + 1) % N;
          if (st.size() < N && strchr("uwrf", c)) { s += std::to_string(x); if (c != 'u') s += c == 'w' ? "3" : std::to_string(1 + g.upto(3)); } else if (strchr("uwrf", c)) s.back() = 't';
          if (q > 1) s += "+";
        }
      } else {
        s += "p" + d(50) + ":";
        unsigned z = g.upto(12);
        if (z == 0) s += "T"; else if (z == 1) s += "E"; else if (z == 2) s += "N";
        else for (int x = 0; x < N; ++x) if (g.coin()) s += "+" + std::to_string(x) + "=" + std::to_string(g.pick(std::vector<int>{1, 4, 5, 8, 16, 17, 32, 1, 4}));
        if (s.back() == ':') s += "T";
      }
      s += ",";
    }
    s += "p1:0=1+1=4+2=1+3=5+4=1+5=4";
    run("script " + std::string(g.coin() ? "n" : "m") + " " + s);
  }
}
int main(int c, char** v)
{
  ops()["script"] = script; ops()["real"] = real;
  return main_(c, v, battery);
}

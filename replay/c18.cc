// C18: real servers behind a programmable firewall; what denied and granted peers get, and what the server keeps.
#define NET_INTERPOSE
#include "net.h"
#include "libiqxmlrpc/firewall.h"
#include "libiqxmlrpc/acceptor.h"
#include "libiqxmlrpc/conn_factory.h"
#include "libiqxmlrpc/reactor_impl.h"
#include <set>
using namespace rt;
using namespace net;

// descriptors the library took from a listening socket and did not close yet
static std::mutex fm;
static std::map<int, int> taken;
extern "C" int accept(int s, sockaddr* a, socklen_t* l)
{
  long r = syscall(SYS_accept, s, a, l);
  if (r >= 0) { std::lock_guard<std::mutex> g(fm); taken[int(r)] = 0; }
  return int(r);
}
extern "C" int close(int fd)
{
  { std::lock_guard<std::mutex> g(fm); std::map<int, int>::iterator i = taken.find(fd); if (i != taken.end()) taken.erase(i); }
  return int(syscall(SYS_close, fd));
}
static size_t held() { std::lock_guard<std::mutex> g(fm); return taken.size(); }

struct Gate: iqnet::Firewall_base {
  std::mutex m; bool ok; std::string msg; std::vector<std::string> asked;
  Gate(): ok(true) {}
  bool grant(const iqnet::Inet_addr& a) { std::lock_guard<std::mutex> l(m); asked.push_back(a.get_host_name() + ":" + std::to_string(a.get_port())); return ok; }
  std::string message() { std::lock_guard<std::mutex> l(m); return msg; }
  void set(bool o, const std::string& s) { std::lock_guard<std::mutex> l(m); ok = o; msg = s; asked.clear(); }
  std::vector<std::string> take() { std::lock_guard<std::mutex> l(m); return asked; }
};
static void m_who(Method* m, const Param_list&, Value& r) { net::seen().add("who"); r = m->peer_addr().get_host_name() + ":" + std::to_string(m->peer_addr().get_port()); }
struct Plain: iqnet::Firewall_base { bool grant(const iqnet::Inet_addr&) { return false; } };   // with the message it has by itself

static Gate& gate() { static Gate* g = new Gate; return *g; }
static Srv& srv(char kind)
{
  static std::map<char, Srv*> m;
  Srv*& s = m[kind];
  if (!s || s->ended) {
    s = new Srv(0, false);
    register_method(*s->s, "who", m_who);
    if (kind == 'g') s->s->set_firewall(&gate());
    if (kind == 'p') s->s->set_firewall(new Plain);
    gate().set(true, "");
    s->start();
    for (int i = 0; i < 200 && held(); ++i) usleep(2000);
    usleep(20000);
  }
  return *s;
}
static int dial(int port, const std::string& from)
{
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  sockaddr_in a = sockaddr_in(); a.sin_family = AF_INET; inet_pton(AF_INET, from.c_str(), &a.sin_addr);
  if (bind(fd, (sockaddr*)&a, sizeof a)) rt::fail("cannot use the address " + from);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
  if (connect(fd, (sockaddr*)&a, sizeof a)) rt::fail("cannot connect to the server");
  return fd;
}
static std::string self(int fd)
{
  sockaddr_in a = sockaddr_in(); socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l);
  char b[64]; inet_ntop(AF_INET, &a.sin_addr, b, sizeof b);
  return std::string(b) + ":" + std::to_string(ntohs(a.sin_port));
}
static std::string drain(int fd, bool& end, int ms = 5000)
{
  std::string r; end = false;
  for (;;) {
    pollfd p = {fd, POLLIN, 0};
    if (poll(&p, 1, ms) <= 0) return r;
    char b[65536]; ssize_t n = raw_recv(fd, b, sizeof b, 0);
    if (n <= 0) { end = true; return r; }
    r.append(b, n);
  }
}
static void settle(size_t want, const std::string& what)
{
  size_t h = held();
  for (int i = 0; i < 1500 && h > want; ++i) { usleep(2000); h = held(); }
  expect(h <= want, std::to_string(h - want) + " descriptors not released after " + what);
}
static void alive(Srv& s, const std::string& after) { expect(!s.ended, "the server stopped (" + s.died + ") after " + after); }
// deny <message> <address> <early request y|n> <transfer plan>
static void deny(const Args& a)
{
  std::string msg = unhex(a.at(0));
  Srv& s = srv('g');
  size_t h0 = held();
  gate().set(false, msg);
  net::seen().take();
  std::vector<long> plan;
  if (a.at(3) != "-") { std::istringstream is(a.at(3)); std::string q; while (std::getline(is, q, ',')) plan.push_back(std::stol(q)); }
  splan().set(plan);
  int fd = dial(s.port, a.at(1));
  std::string me = self(fd);
  if (a.at(2) == "y") raw_send(fd, http_req(call("who", ""), "keep-alive").data(), http_req(call("who", ""), "keep-alive").size(), MSG_NOSIGNAL);
  bool end;
  std::string got = drain(fd, end);
  splan().set(std::vector<long>());
  ::close(fd);
  bool fails = a.at(3) != "-";
  alive(s, "a denied connection");
  expect(end, "a denied connection is not closed");
  if (fails) expect(got.empty(), "a denied peer got " + show(got) + " although sending fails");
  else expect_str(got, msg, "what a denied peer gets");
  settle(h0, "a denied connection");
  expect(net::seen().take().empty(), "a denied peer reached a method");
  std::vector<std::string> q = gate().take();
  expect_eq(q.size(), size_t(1), "times the firewall was asked");
  expect_str(q[0], me, "address the firewall was asked about");
}
static void served(int fd, const std::string& me, const std::string& what)
{
  std::string r = http_req(call("who", ""), "close");
  raw_send(fd, r.data(), r.size(), MSG_NOSIGNAL);
  bool end;
  std::string got = drain(fd, end);
  ::close(fd);
  expect(got.compare(0, 15, "HTTP/1.1 200 OK") == 0, what + ": not served, got " + show(got));
  expect(got.find(me) != std::string::npos, what + ": the server does not know the peer as " + me + ": " + show(got));
  expect_eq(net::seen().take().size(), size_t(1), what + ": calls");
}
// grant <g|n|p> <address>
static void grant(const Args& a)
{
  char k = a.at(0)[0];
  Srv& s = srv(k);
  size_t h0 = held();
  gate().set(true, "no");
  net::seen().take();
  int fd = dial(s.port, a.at(1));
  std::string me = self(fd);
  served(fd, me, k == 'g' ? "granted peer" : "peer without a firewall");
  settle(h0, "a granted connection ended");
  std::vector<std::string> q = gate().take();
  expect_eq(q.size(), size_t(k == 'g'), "times the firewall was asked");
  if (k == 'g') expect_str(q[0], me, "address the firewall was asked about");
  alive(s, "a granted connection");
}
// dflt: the message of a firewall that does not say anything itself
static void dflt(const Args& a)
{
  Srv& s = srv('p');
  size_t h0 = held();
  int fd = dial(s.port, "127.0.0.1");
  bool end;
  std::string got = drain(fd, end);
  ::close(fd);
  expect(end, "a denied connection is not closed");
  expect_str(got, "HTTP/1.0 403 Forbidden\r\n", "message of the plain firewall");
  settle(h0, "a denied connection");
}
// mix <d|g letters>: connections one after another, all open at once
static void mix(const Args& a)
{
  Srv& s = srv('g');
  size_t h0 = held();
  std::vector<int> fds;
  net::seen().take();
  size_t n = 0;
  for (char c : a.at(0)) {
    gate().set(c == 'g', "bye");
    size_t had = gate().take().size();
    int fd = dial(s.port, n++ % 2 ? "127.0.0.3" : "127.0.0.2");
    for (int i = 0; i < 2000 && gate().take().size() == had; ++i) usleep(1000);
    expect(gate().take().size() == had + 1, "the firewall was not asked once");
    fds.push_back(fd);
  }
  for (size_t i = 0; i < fds.size(); ++i) {
    if (a.at(0)[i] == 'g') served(fds[i], self(fds[i]), "granted peer " + std::to_string(i));
    else { bool end; std::string got = drain(fds[i], end); ::close(fds[i]); expect(end, "a denied connection is not closed"); expect_str(got, "bye", "what a denied peer gets"); }
  }
  settle(h0, "a mix of connections");
  alive(s, "a mix of connections");
}
// many <n> <message>: denied connections leave nothing behind
static void many(const Args& a)
{
  Srv& s = srv('g');
  size_t h0 = held();
  gate().set(false, unhex(a.at(1)));
  int n = std::stoi(a.at(0));
  for (int i = 0; i < n; ++i) {
    int fd = dial(s.port, "127.0.0.1");
    if (i % 2) { linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    else { bool end; drain(fd, end); }
    ::close(fd);
  }
  for (int i = 0; i < 1000 && !s.ended && gate().take().size() < size_t(n); ++i) usleep(2000);
  alive(s, "many denied connections");
  settle(h0, std::to_string(n) + " denied connections");
}
// again: the server is stopped and serves again behind the same firewall
static void again(const Args& a)
{
  Srv s(0, false);
  register_method(*s.s, "who", m_who);
  s.s->set_firewall(&gate());
  for (int i = 0; i < 2; ++i) {
    gate().set(true, "");
    s.ended = false;
    s.start();
    usleep(20000);
    gate().set(false, "later");
    int fd = dial(s.port, "127.0.0.1"); bool end;
    std::string got = drain(fd, end);
    ::close(fd);
    expect(end, "a denied connection is not closed");
    expect_str(got, "later", "what a denied peer gets in round " + std::to_string(i));
    s.stop();
  }
}
// replace <letters>: an acceptor whose firewall is set again and again: d denies, g grants, 0 none; a connection after each
static int walls = 0;
struct Wall: iqnet::Firewall_base { bool ok; std::string msg; Wall(bool o, const std::string& m): ok(o), msg(m) { ++walls; } ~Wall() { --walls; } bool grant(const iqnet::Inet_addr&) { return ok; } std::string message() { return msg; } };
struct Handed: iqnet::Accepted_conn_factory { int n; Handed(): n(0) {} void create_accepted(const iqnet::Socket& k) { ++n; iqnet::Socket c(k); c.send("in", 2); c.shutdown(); c.close(); } };
static void replace(const Args& a)
{
  int port = free_port(), before = walls;
  Handed f; iqnet::Reactor<iqnet::Null_lock> r;
  iqnet::Acceptor ac(iqnet::Inet_addr("127.0.0.1", port), &f, &r);
  int n = 0;
  for (char k : a.at(0)) {
    std::string m = "out " + std::to_string(n++), at = " after setting " + std::to_string(n) + " (" + k + ")";
    ac.set_firewall(k == '0' ? 0 : new Wall(k == 'g', m));
    expect_eq(walls - before, k == '0' ? 0 : 1, "firewalls alive" + at);
    int had = f.n, fd = dial(port, "127.0.0.1"); bool end;
    expect(r.handle_events(2000), "the connection was not noticed" + at);
    std::string got = drain(fd, end);
    ::close(fd);
    expect_eq(f.n - had, k == 'd' ? 0 : 1, "connections handed over" + at);
    expect_str(got, k == 'd' ? m : "in", "what the peer gets" + at);
  }
  ac.set_firewall(0);
}
static void battery(Rng& g, bool thorough)
{
  for (const char* w : {"d", "g", "0", "dg", "gd", "dd", "d0", "0d", "d0d", "ddd", "g0gd", "dgdgdg"}) run(std::string("replace ") + w);
  for (const char* k : {"g", "n"}) for (const char* ad : {"127.0.0.1", "127.0.0.2", "127.1.2.3"}) run(std::string("grant ") + k + " " + ad);
  for (const std::string& m : {std::string("-"), hex("no"), hex("HTTP/1.0 403 Forbidden\r\n"), hex(std::string("a\0b", 3)), hex("x"), hex(std::string(100000, 'm'))})
    for (const char* ad : {"127.0.0.1", "127.0.0.77"})
      for (const char* e : {"n", "y"}) if (m.size() < 1000 || *e == 'n') run("deny " + m + " " + ad + " " + e + " -");
  run("deny " + hex("no") + " 127.0.0.1 n -1");
  run("deny " + hex("no") + " 127.0.0.1 n -1");
  run("grant g 127.0.0.1");
  run("dflt");
  for (const char* p : {"gd", "dg", "ggdd", "dgdgdg", "gggg", "dddd"}) run(std::string("mix ") + p);
  run("many 60 -"); run("many 60 " + hex("go away"));
  run("again");
  unsigned n = thorough ? 100 : 12;
  for (unsigned i = 0; i < n; ++i) {
    std::string p;
    for (unsigned k = 1 + g.upto(7); k; --k) p += "gd"[g.upto(2)];
    run("mix " + p);
    std::string m;
    for (unsigned k = g.upto(40); k; --k) m += char(g.upto(256));
    run("deny " + hex(m) + " 127.0.0." + std::to_string(1 + g.upto(200)) + " n -");
  }
}
int main(int c, char** v)
{
  ops()["deny"] = deny; ops()["grant"] = grant; ops()["dflt"] = dflt; ops()["mix"] = mix; ops()["many"] = many; ops()["again"] = again; ops()["replace"] = replace;
  return main_(c, v, battery);
}

// A real server of the library on the loopback interface, a raw client, and control over how send and recv of the library behave.
#ifndef VERIF_NET_H
#define VERIF_NET_H
#include "rt.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <vector>
#include "libiqxmlrpc/libiqxmlrpc.h"
#include "libiqxmlrpc/http_server.h"
#include "libiqxmlrpc/http_client.h"
#include "libiqxmlrpc/http_errors.h"
#include "libiqxmlrpc/auth_plugin.h"
#include "libiqxmlrpc/xheaders.h"

namespace net {
// ---- how much a transfer of the library may move: pattern repeated; 0 = as given, n = at most n bytes, -1 = fails once
struct Plan { std::vector<long> v; size_t i; std::mutex m; Plan(): i(0) {}
  void set(const std::vector<long>& x) { std::lock_guard<std::mutex> l(m); v = x; i = 0; }
  long next() { std::lock_guard<std::mutex> l(m); return v.empty() ? 0 : v[i++ % v.size()]; } };
inline Plan& splan() { static Plan p; return p; }
inline Plan& rplan() { static Plan p; return p; }
inline std::atomic<long>& nsig() { static std::atomic<long> n(0); return n; }
inline std::atomic<long>& closes() { static std::atomic<long> n(0); return n; }
}
extern "C" inline ssize_t raw_send(int fd, const void* b, size_t n, int f) { return syscall(SYS_sendto, fd, b, n, f, 0, 0); }
extern "C" inline ssize_t raw_recv(int fd, void* b, size_t n, int f) { return syscall(SYS_recvfrom, fd, b, n, f, 0, 0); }
#ifdef NET_INTERPOSE
extern "C" ssize_t send(int fd, const void* b, size_t n, int f)
{
  if (!(f & MSG_NOSIGNAL)) ++net::nsig();
  long k = net::splan().next();
  if (k == -1) { errno = ECONNRESET; return -1; }
  if (k <= -100) { errno = int(-k - 100); return -1; }
  if (k == -2) return 0;
  if (k > 0 && size_t(k) < n) n = size_t(k);
  return raw_send(fd, b, n, f | MSG_NOSIGNAL);
}
extern "C" ssize_t recv(int fd, void* b, size_t n, int f)
{
  long k = net::rplan().next();
  if (k == -1) { errno = ECONNRESET; return -1; }
  if (k <= -100) { errno = int(-k - 100); return -1; }
  if (k > 0 && size_t(k) < n) n = size_t(k);
  return raw_recv(fd, b, n, f);
}
#endif
namespace net {
using namespace iqxmlrpc;
inline int free_port()
{
  int s = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a = sockaddr_in(); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  bind(s, (sockaddr*)&a, sizeof a);
  socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l);
  close(s);
  return ntohs(a.sin_port);
}
// what methods saw
struct Seen { std::mutex m; std::vector<std::string> calls; void add(const std::string& s) { std::lock_guard<std::mutex> l(m); calls.push_back(s); } std::vector<std::string> take() { std::lock_guard<std::mutex> l(m); std::vector<std::string> r; r.swap(calls); return r; } };
inline Seen& seen() { static Seen s; return s; }
inline void m_echo(Method* m, const Param_list& p, Value& r) { seen().add("echo"); r = p.empty() ? Value("none") : p[0]; }
inline void m_len(Method*, const Param_list& p, Value& r) { seen().add("len"); r = int(p[0].get_string().size()); }
inline void m_big(Method*, const Param_list& p, Value& r) { seen().add("big"); r = std::string(size_t(p[0].get_int()), 'x'); }
inline void m_fault(Method*, const Param_list& p, Value&) { seen().add("fault"); throw Fault(p.empty() ? 1 : p[0].get_int(), p.size() > 1 ? p[1].get_string() : std::string("f")); }
inline void m_std(Method*, const Param_list&, Value&) { seen().add("std"); throw std::runtime_error("boom"); }
inline void m_any(Method*, const Param_list&, Value&) { seen().add("any"); throw 42; }
inline void m_exc(Method*, const Param_list&, Value&) { seen().add("exc"); throw Exception("exc", 77); }
inline void m_user(Method* m, const Param_list&, Value& r) { seen().add("user"); r = m->authenticated() ? "+" + m->authname() : std::string("-") + m->authname(); }
struct Srv {
  int port; std::unique_ptr<Executor_factory_base> ef; std::unique_ptr<Http_server> s; std::thread t; std::atomic<bool> ended; std::string died;
  explicit Srv(Executor_factory_base* f = 0, bool start_now = true): port(free_port()), ef(f ? f : new Serial_executor_factory), ended(false)
  {
    s.reset(new Http_server(iqnet::Inet_addr("127.0.0.1", port), ef.get()));
    register_method(*s, "echo", m_echo); register_method(*s, "len", m_len); register_method(*s, "big", m_big); register_method(*s, "fault", m_fault);
    register_method(*s, "std", m_std); register_method(*s, "any", m_any); register_method(*s, "exc", m_exc); register_method(*s, "user", m_user);
    if (start_now) start();
  }
  void start()
  {
    std::atomic<bool>* e = &ended; std::string* d = &died; Http_server* p = s.get();
    t = std::thread([e, d, p] { try { p->work(); } catch (const std::exception& x) { *d = x.what(); } catch (...) { *d = "unknown"; } *e = true; });
    // up once it accepts
    for (int i = 0; i < 500; ++i) { int c = try_connect(port); if (c >= 0) { close(c); return; } usleep(5000); }
  }
  static int try_connect(int port)
  {
    int c = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a = sockaddr_in(); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    if (connect(c, (sockaddr*)&a, sizeof a) == 0) return c;
    close(c); return -1;
  }
  void stop()
  {
    if (!t.joinable()) return;
    s->set_exit_flag();
    for (int i = 0; i < 400 && !ended; ++i) { s->interrupt(); usleep(5000); }
    if (ended) t.join(); else { t.detach(); rt::fail("the server does not stop"); }
  }
  ~Srv() { try { stop(); } catch (...) {} }
};
struct Ans { bool eof; int code; std::string start, head, body; std::map<std::string, std::string> o; Ans(): eof(false), code(0) {} };
struct Cli {
  int fd; std::string buf; bool closed;
  explicit Cli(int port, int rcvbuf = 0): closed(false)
  {
    fd = socket(AF_INET, SOCK_STREAM, 0);
    if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sockaddr_in a = sockaddr_in(); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
    if (connect(fd, (sockaddr*)&a, sizeof a)) rt::fail("cannot connect to the server");
  }
  ~Cli() { if (fd >= 0) close(fd); }
  void put(const std::string& s)
  {
    size_t at = 0;
    while (at < s.size()) {
      ssize_t n = raw_send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (n > 0) { at += n; continue; }
      if (n < 0 && errno == EAGAIN) { pollfd p = {fd, POLLOUT | POLLIN, 0}; if (poll(&p, 1, 5000) <= 0) rt::fail("the server does not take the request"); if (p.revents & POLLIN) more(0); continue; }
      return;                                                          // peer closed
    }
  }
  void half() { shutdown(fd, SHUT_WR); }
  bool more(int ms)
  {
    if (closed) return false;
    pollfd p = {fd, POLLIN, 0};
    if (poll(&p, 1, ms) <= 0) return false;
    char b[65536];
    ssize_t n = raw_recv(fd, b, sizeof b, 0);
    if (n <= 0) { closed = true; return false; }
    buf.append(b, n);
    return true;
  }
  // nothing comes and the connection stays open for ms milliseconds
  bool quiet(int ms) { return buf.empty() && !more(ms) && !closed; }
  bool eof(int ms = 5000) { while (!closed) { if (!more(ms)) break; } return closed && buf.empty(); }
  Ans get(int ms = 5000)
  {
    Ans a;
    size_t h;
    while ((h = buf.find("\r\n\r\n")) == std::string::npos) if (!more(ms)) { if (closed) { if (!buf.empty()) rt::fail("truncated answer " + rt::show(buf)); a.eof = true; return a; } rt::fail("no answer within " + std::to_string(ms) + " ms, received so far " + rt::show(buf)); }
    a.head = buf.substr(0, h + 2);
    buf.erase(0, h + 4);
    size_t at = a.head.find("\r\n");
    a.start = a.head.substr(0, at);
    a.code = a.start.size() >= 12 ? atoi(a.start.c_str() + 9) : 0;
    for (at += 2; at < a.head.size();) { size_t e = a.head.find("\r\n", at); std::string l = a.head.substr(at, e - at); at = e + 2; size_t c = l.find(": "); if (c != std::string::npos) a.o[l.substr(0, c)] = l.substr(c + 2); }
    if (a.code == 100) return a;
    if (!a.o.count("content-length")) rt::fail("answer without content-length: " + rt::show(a.head));
    size_t n = size_t(atol(a.o["content-length"].c_str()));
    while (buf.size() < n) if (!more(ms)) rt::fail("answer body stops after " + std::to_string(buf.size()) + " of " + std::to_string(n) + " bytes");
    a.body = buf.substr(0, n);
    buf.erase(0, n);
    return a;
  }
};
inline std::string call(const std::string& m, const std::string& params) { return "<?xml version=\"1.0\"?><methodCall><methodName>" + m + "</methodName><params>" + params + "</params></methodCall>"; }
inline std::string p_str(const std::string& s) { return "<param><value><string>" + s + "</string></value></param>"; }
inline std::string p_int(int n) { return "<param><value><i4>" + std::to_string(n) + "</i4></value></param>"; }
inline std::string http_req(const std::string& body, const std::string& conn = "", const std::string& extra = "")
{ return "POST /RPC HTTP/1.1\r\nhost: x\r\n" + (conn.empty() ? std::string() : "connection: " + conn + "\r\n") + extra + "content-type: text/xml\r\ncontent-length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
}
#endif

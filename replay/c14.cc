// C14: messages over a real connection whose transfers are cut as the case says.
#define NET_INTERPOSE
#include "net.h"
using namespace rt;
using namespace net;

static std::vector<long> plan(const std::string& s)
{
  std::vector<long> r; std::istringstream is(s); std::string w;
  while (std::getline(is, w, ',')) r.push_back(std::stol(w));
  return r;
}
static Srv& srv() { static Srv* s = new Srv; return *s; }
struct Plans { Plans(const std::string& s, const std::string& r) { splan().set(plan(s)); rplan().set(plan(r)); } ~Plans() { splan().set({}); rplan().set({}); } };
static std::string text(size_t n, unsigned seed) { std::string s; Rng g(seed); while (s.size() < n) s += char('a' + g.upto(26)); return s; }
// srv <send plan> <recv plan> <length> <requests> <keep>: answers of the server, byte by byte
static void srv_(const Args& a)
{
  size_t n = std::stoul(a.at(2)); int k = std::stoi(a.at(3)); bool ka = a.at(4) == "1";
  Srv& s = srv();
  Plans p(a.at(0), a.at(1));
  Cli c(s.port);
  for (int i = 0; i < k; ++i) {
    std::string t = text(n, i + 1);
    bool last = i + 1 == k;
    c.put(http_req(call("echo", p_str(t)), ka && !last ? "keep-alive" : "close"));
    Ans r = c.get(8000);
    expect(!r.eof, "the server closed instead of answering request " + std::to_string(i));
    expect_eq(r.code, 200, "status");
    expect(r.body.find(">" + t + "<") != std::string::npos, "answer " + std::to_string(i) + " does not carry the text sent (" + std::to_string(r.body.size()) + " bytes): " + show(r.body.substr(0, 300)));
    expect_eq(r.body.size(), r.body.rfind("</methodResponse>") + 17 + (r.body.back() == '\n'), "end of the answer");
    if (!ka) break;
  }
  expect(c.eof(), "bytes after the last answer, or the connection is not closed");
}
// cli <send plan> <recv plan> <length> <calls> <keep>: the library's client against the library's server
static void cli_(const Args& a)
{
  size_t n = std::stoul(a.at(2)); int k = std::stoi(a.at(3)); bool ka = a.at(4) == "1";
  Srv& s = srv();
  Plans p(a.at(0), a.at(1));
  Client<Http_client_connection> c(iqnet::Inet_addr("127.0.0.1", s.port));
  c.set_timeout(8); c.set_keep_alive(ka);
  for (int i = 0; i < k; ++i) {
    std::string t = text(n, i + 100);
    Response r = c.execute("echo", Value(t));
    expect(!r.is_fault(), "call " + std::to_string(i) + " came back as a fault: " + r.fault_string());
    expect_str(r.value().get_string(), t, "value returned by call " + std::to_string(i));
  }
}
// err <side> <transfers before> <length> [errno]: a transfer of the library fails; the call fails, the server lives on
static void err_(const Args& a)
{
  Srv& s = srv();
  std::vector<long> v(std::stoul(a.at(1)), 7);
  v.push_back(a.size() > 3 ? -100 - std::stol(a[3]) : -1);
  for (int i = 0; i < 50; ++i) v.push_back(0);
  {
    Cli c(s.port);
    (a.at(0) == "send" ? splan() : rplan()).set(v);
    c.put(http_req(call("echo", p_str(text(std::stoul(a.at(2)), 5))), "close"));
    bool ok = false;
    std::string got;
    while (c.more(8000)) {}
    splan().set({}); rplan().set({});
    expect(c.closed, "connection still open after a failed transfer");
    if (a.at(0) == "recv") expect(c.buf.empty(), "an answer although receiving failed: " + show(c.buf));
    else if (c.buf.find("\r\n\r\n") != std::string::npos) expect(c.buf.size() <= 7 * v.size(), "more than what was accepted was sent");
    (void)ok;
  }
  Cli d(s.port);
  d.put(http_req(call("len", p_str("abc")), "close"));
  Ans r = d.get();
  expect_eq(r.code, 200, "status of the next request");
  expect(r.body.find(">3<") != std::string::npos, "answer to the next request " + show(r.body));
}
// sock <side> <errno>: a failed transfer of a socket is an exception
static void sock_(const Args& a)
{
  Srv& s = srv();
  iqnet::Socket k; k.connect(iqnet::Inet_addr("127.0.0.1", s.port));
  char b[8] = {0};
  bool out = a.at(0) == "send", thrown = false;
  size_t n = 0;
  {
    Plans p(out ? std::to_string(-100 - std::stol(a.at(1))) : "0", out ? "0" : std::to_string(-100 - std::stol(a.at(1))));
    try { n = out ? k.send("abc", 3) : k.recv(b, sizeof b); } catch (const std::exception&) { thrown = true; }
  }
  k.shutdown(); k.close();
  expect(thrown, a.at(0) + " failed with " + strerror(std::stoi(a.at(1))) + ", the socket reports " + std::to_string(n) + " bytes");
}
// raw <recv plan> <bytes>: what arrives is handed on as it is
static void raw_(const Args& a)
{
  Srv& s = srv();
  Plans p("0", a.at(0));
  std::string b = unhex(a.at(1));
  Cli c(s.port);
  c.put(http_req(b, "close"));
  Ans r = c.get(4000);
  expect(!r.eof, "no answer to " + show(b));
  expect_eq(r.code, 200, "status");
  expect(r.body.find(">-32700<") != std::string::npos, "the answer is not a parser error: " + show(r.body.substr(0, 300)));
}
// out <keep> <bytes>, cli <bytes> of the verifier: the size of the message is what matters
static void out_(const Args& a)
{
  size_t n = a.at(1) == "-" ? 0 : unhex(a.at(1)).size();
  for (const char* p : {"1,0", "1", "0,1", "3,2,1"}) srv_(Args{p, "0", std::to_string(n), "2", a.at(0)});
}
static void nosig_(const Args&)
{
  expect_eq(long(nsig()), 0L, "sends without protection from SIGPIPE");
}
static void battery(Rng& g, bool thorough)
{
  const char* plans[] = {"0", "1", "2,1", "100", "7,0,3", "1,1,1,500", "0,1", "-2,5,0", "4096"};
  const char* rplans[] = {"0", "1", "3,1", "64", "0,1", "1000"};
  for (const char* p : plans) for (const char* r : {"0", "5,1"}) for (const char* ka : {"0", "1"}) run(std::string("srv ") + p + " " + r + " 40 3 " + ka);
  for (const char* r : rplans) for (const char* n : {"0", "1", "300"}) run(std::string("srv 0 ") + r + " " + n + " 2 1");
  for (const char* p : {"1", "33,1", "0", "-2,9", "1000"}) for (const char* r : {"0", "1", "17,2"}) for (const char* ka : {"0", "1"}) run(std::string("cli ") + p + " " + r + " 200 3 " + ka);
  for (const char* n : {"65536", "300000", "3000000"}) { run(std::string("srv 0 0 ") + n + " 2 1"); run(std::string("cli 0 0 ") + n + " 2 1"); run(std::string("srv 5000,1 0 ") + n + " 1 0"); run(std::string("cli 40000,1,7 9999 ") + n + " 2 1"); }
  for (const char* k : {"0", "1", "5"}) { run(std::string("err send ") + k + " 60"); run(std::string("err recv ") + k + " 60"); }
  for (int e : {EPIPE, ECONNRESET, ENOTCONN, ENOMEM, EBADF, ETIMEDOUT, ECONNREFUSED, EINVAL, EHOSTUNREACH, ENETDOWN, ENOBUFS, EMSGSIZE, EIO}) {
    run("sock send " + std::to_string(e)); run("sock recv " + std::to_string(e));
    run("err send 1 60 " + std::to_string(e)); run("err recv 1 60 " + std::to_string(e));
  }
  for (const char* r : {"0", "1", "150,1"}) for (auto& b : {std::string("\0", 1), std::string("<a\0/>", 5), std::string("<a>\0</a>", 8), std::string("\xff\xfe\0\r\n\r\n", 7), std::string(300, '\0')}) run(std::string("raw ") + r + " " + hex(b));
  unsigned n = thorough ? 400 : 60;
  for (unsigned i = 0; i < n; ++i) {
    std::string p, r;
    for (unsigned k = 1 + g.upto(6); k; --k) p += (p.empty() ? "" : ",") + std::to_string(g.coin(4) ? 0 : 1 + g.upto(g.coin() ? 4 : 400));
    for (unsigned k = 1 + g.upto(6); k; --k) r += (r.empty() ? "" : ",") + std::to_string(g.coin(4) ? 0 : 1 + g.upto(g.coin() ? 4 : 400));
    run(std::string(g.coin() ? "srv " : "cli ") + p + " " + r + " " + std::to_string(g.upto(1500)) + " " + std::to_string(1 + g.upto(4)) + " " + (g.coin() ? "1" : "0"));
  }
  run("nosig");
}
int main(int c, char** v)
{
  ops()["srv"] = srv_; ops()["cli"] = [](const Args& a) { if (a.size() == 1) out_(Args{"1", a[0]}); else cli_(a); }; ops()["err"] = err_; ops()["out"] = out_; ops()["sock"] = sock_; ops()["raw"] = raw_; ops()["nosig"] = nosig_;
  return main_(c, v, battery);
}

// C01: base64 codec, judged against an independent oracle
#include "rt.h"
#include "value_type.h"
#include "value.h"
#include <memory>
using namespace iqxmlrpc;
using namespace rt;

static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string oracle_enc(const std::string& d)
{
  std::string r;
  for (size_t i = 0; i < d.size(); i += 3) {
    unsigned v = 0, n = 0;
    for (size_t k = 0; k < 3; ++k) { v <<= 8; if (i + k < d.size()) { v |= (unsigned char)d[i + k]; ++n; } }
    for (unsigned k = 0; k < 4; ++k) r += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '=';
  }
  return r;
}
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// false: malformed
static bool oracle_dec(const std::string& t, std::string& out)
{
  std::string s;
  for (char c : t) if (!sp(c)) s += c;
  if (s.size() % 4) return false;
  out.clear();
  for (size_t i = 0; i < s.size(); i += 4) {
    size_t a = A.find(s[i]), b = A.find(s[i + 1]), c = A.find(s[i + 2]), d = A.find(s[i + 3]);
    if (a == A.npos || b == A.npos) return false;
    out += char(a << 2 | b >> 4);
    if (s[i + 2] == '=') continue;
    if (c == A.npos) return false;
    out += char(b << 4 | c >> 2);
    if (s[i + 3] == '=') continue;
    if (d == A.npos) return false;
    out += char(c << 6 | d);
  }
  return true;
}

static void op_enc(const Args& a)
{
  std::string d = unhex(a[0]);
  std::unique_ptr<Binary_data> b(Binary_data::from_data(d));
  expect_str(b->get_data(), d, "bytes stored");
  expect_str(b->get_base64(), oracle_enc(d), "encoding");
  expect_str(b->get_base64(), oracle_enc(d), "encoding, asked again");
  expect_str(b->get_data(), d, "bytes after encoding");
  std::unique_ptr<Binary_data> c(Binary_data::from_data(d.data(), d.size()));
  expect_str(c->get_base64(), oracle_enc(d), "encoding of buffer");
  std::unique_ptr<Binary_data> r(Binary_data::from_base64(b->get_base64()));
  expect_str(r->get_data(), d, "round trip");
  Value v(*b);
  expect_str(v.get_binary().get_base64(), oracle_enc(d), "encoding of a copy");
  Value v2(Value(static_cast<const Binary_data&>(*c)));
  expect_str(v2.get_binary().get_data(), d, "bytes of a copy");
}
static void op_dec(const Args& a)
{
  std::string t = unhex(a[0]), want;
  bool ok = oracle_dec(t, want);
  std::unique_ptr<Binary_data> b;
  std::string e = thrown([&] { b.reset(Binary_data::from_base64(t)); });
  if (!ok) { expect_str(e, "iqxmlrpc::Binary_data::Malformed_base64", "malformed text " + show(t)); return; }
  expect_str(e, "", "well-formed text " + show(t) + " rejected with");
  expect_str(b->get_data(), want, "decoding of " + show(t));
  if (!t.empty()) expect_str(b->get_base64(), t, "text kept");
}
static void battery(Rng& g, bool thorough)
{
  for (unsigned n = 0; n < 256; ++n) run("enc " + hex(std::string(1, char(n))));
  for (unsigned n = 0; n < 70; ++n) { run("enc " + hex(g.bytes(n))); run("enc " + hex(std::string(n, '\xff'))); run("enc " + hex(std::string(n, '\0'))); }
  for (unsigned i = 0; i < 64; ++i) for (unsigned k = 0; k < 4; ++k) {       // every sextet in every position
    unsigned v = i << (18 - 6 * k);
    std::string d; d += char(v >> 16); d += char(v >> 8); d += char(v);
    run("enc " + hex(d)); run("enc " + hex(d.substr(0, 2))); run("enc " + hex(d.substr(0, 1)));
  }
  for (unsigned c = 0; c < 256; ++c) for (unsigned k = 0; k < 4; ++k) {      // every character in every position
    std::string q = "Ab9/"; q[k] = char(c); run("dec " + hex(q)); run("dec " + hex("QUJD" + q + "QUJD"));
    std::string e = "AB=="; e[k] = char(c); run("dec " + hex(e)); run("dec " + hex(e + "QUJD"));
    std::string f = "ABC="; f[k] = char(c); run("dec " + hex(f));
  }
  for (unsigned c = 0; c < 256; ++c) for (unsigned n = 0; n <= 8; ++n) {     // every character inserted anywhere
    std::string q = "QUJDREVG"; q.insert(n, 1, char(c)); run("dec " + hex(q));
  }
  for (unsigned n = 0; n < 12; ++n) { run("dec " + hex(std::string(n, 'A'))); run("dec " + hex(std::string(n, ' '))); run("dec " + hex(std::string(n, '='))); }
  unsigned N = thorough ? 200000 : 6000;
  for (unsigned i = 0; i < N; ++i) {
    unsigned n = g.coin(20) ? g.upto(700) : g.upto(24);
    std::string d = g.bytes(n);
    if (g.coin(3)) { run("enc " + hex(d)); continue; }
    std::string t = oracle_enc(d);
    for (unsigned k = g.upto(4); k--;) t.insert(g.upto(t.size() + 1), g.from(" \t\r\n\v\f", 1 + g.upto(3)));
    if (g.coin(3)) for (unsigned k = 1 + g.upto(3); k--;) {
      if (t.empty() || g.coin(3)) t.insert(g.upto(t.size() + 1), 1, g.coin() ? char(g.upto(256)) : g.pick(A));
      else if (g.coin()) t.erase(g.upto(t.size()), 1);
      else t[g.upto(t.size())] = g.coin() ? '=' : char(g.upto(256));
    }
    run("dec " + hex(t));
  }
}
int main(int argc, char** argv)
{
  ops()["enc"] = op_enc;
  ops()["dec"] = op_dec;
  return main_(argc, argv, battery);
}

// C02: dateTime.iso8601 against an independent reading of the property text.
#include "rt.h"
#include <ctime>
#include <memory>
#include "libiqxmlrpc/libiqxmlrpc.h"
#include "libiqxmlrpc/value.h"
#include "libiqxmlrpc/value_type.h"
using namespace rt;
using namespace iqxmlrpc;

static const char BAD[] = "iqxmlrpc::Date_time::Malformed_iso8601";

static bool oracle(const std::string& t, int f[6])
{
  static const char form[] = "YYYYMMDDThh:mm:ss";
  if (t.size() != 17) return false;
  int v[6] = {0, 0, 0, 0, 0, 0};
  for (int i = 0; i < 17; i++) {
    const char* k = strchr("YMDhms", form[i]);
    if (!k) { if (t[i] != form[i]) return false; continue; }
    if (t[i] < '0' || t[i] > '9') return false;
    v[std::string("YMDhms").find(form[i])] = v[std::string("YMDhms").find(form[i])] * 10 + (t[i] - '0');
  }
  if (v[0] < 1900 || v[1] < 1 || v[1] > 12 || v[2] < 1 || v[2] > 31 || v[3] > 23 || v[4] > 59 || v[5] > 61) return false;
  for (int i = 0; i < 6; i++) f[i] = v[i];
  return true;
}

static void check_tm(const struct tm& t, const int f[6], const std::string& what)
{
  expect_eq(t.tm_year + 1900, f[0], what + " year");
  expect_eq(t.tm_mon + 1, f[1], what + " month");
  expect_eq(t.tm_mday, f[2], what + " day");
  expect_eq(t.tm_hour, f[3], what + " hour");
  expect_eq(t.tm_min, f[4], what + " minute");
  expect_eq(t.tm_sec, f[5], what + " second");
}

static void check_obj(const Date_time& d, const int f[6], const std::string& text, const std::string& what)
{
  // copies taken before and after the text was asked for must agree as well
  Date_time early(d);
  std::unique_ptr<Value_type> cl(d.clone());
  check_tm(d.get_tm(), f, what);
  expect_str(d.to_string(), text, what + " text");
  expect_str(d.to_string(), text, what + " text, asked again");
  expect_str(early.to_string(), text, what + " text of a copy");
  check_tm(early.get_tm(), f, what + " copy");
  Date_time* c = dynamic_cast<Date_time*>(cl.get());
  expect(c != 0, what + ": clone is not a date-time");
  expect_str(c->to_string(), text, what + " text of a clone");
  check_tm(c->get_tm(), f, what + " clone");
  std::unique_ptr<Value_type> cl2(d.clone());
  expect_str(static_cast<Date_time&>(*cl2).to_string(), text, what + " text of a late clone");
  Value v(d);
  expect(v.is_datetime(), what + ": value kind");
  expect_str(v.get_datetime().to_string(), text, what + " text through Value");
}

static void op_parse(const Args& a)
{
  std::string t = unhex(a[0]);
  int f[6];
  if (!oracle(t, f)) {
    std::string n = thrown([&] { Date_time d(t); });
    expect_str(n, BAD, "error for " + show(t));
    return;
  }
  Date_time d(t);
  check_obj(d, f, t, "parsed");
}

static void op_fmt(const Args& a)
{
  struct tm t;
  memset(&t, 0, sizeof t);
  int f[6];
  for (int i = 0; i < 6; i++) f[i] = atoi(a[i].c_str());
  t.tm_year = f[0]; t.tm_mon = f[1]; t.tm_mday = f[2]; t.tm_hour = f[3]; t.tm_min = f[4]; t.tm_sec = f[5];
  if (a.size() > 6) { t.tm_wday = atoi(a[6].c_str()); t.tm_yday = atoi(a[7].c_str()); t.tm_isdst = atoi(a[8].c_str()); }
  if (f[0] < 0 || f[0] > 8099 || f[1] < 0 || f[1] > 11 || f[2] < 1 || f[2] > 31 || f[3] < 0 || f[3] > 23 || f[4] < 0 || f[4] > 59 || f[5] < 0 || f[5] > 61) return;
  int w[6] = {f[0] + 1900, f[1] + 1, f[2], f[3], f[4], f[5]};
  char b[64];
  snprintf(b, sizeof b, "%04d%02d%02dT%02d:%02d:%02d", w[0], w[1], w[2], w[3], w[4], w[5]);
  Date_time d(&t);
  check_obj(d, w, b, "formatted");
  // and the text parses back to the same
  Date_time e((std::string(b)));
  check_obj(e, w, b, "parsed back");
}

static void fmt(int y, int mo, int d, int h, int mi, int s, int wd = 0, int yd = 0, int dst = 0)
{
  std::ostringstream o;
  o << "fmt " << y << " " << mo << " " << d << " " << h << " " << mi << " " << s << " " << wd << " " << yd << " " << dst;
  run(o.str());
}

static void battery(Rng& g, bool thorough)
{
  auto p = [](const std::string& s) { run("parse " + hex(s)); };
  const std::string base = "20240229T13:45:07";
  p(base); p(""); p("T"); p(base + "0"); p(base.substr(0, 16)); p(base + "Z"); p("2024-02-29T13:45:07"); p(base + " "); p(" " + base);
  // every position, every byte
  for (size_t i = 0; i < 17; i++)
    for (int c = 0; c < 256; c++) { std::string s = base; s[i] = char(c); p(s); }
  // every two-digit value of every field, every year
  const int pos[] = {4, 6, 9, 12, 15};
  for (int q : pos)
    for (int v = 0; v < 100; v++) { std::string s = base; s[q] = char('0' + v / 10); s[q + 1] = char('0' + v % 10); p(s); }
  for (int y = 0; y < 10000; y++) { char b[8]; snprintf(b, 8, "%04d", y); p(b + base.substr(4)); }
  // signs and spaces that number parsers tolerate
  for (int q : pos)
    for (const char* r : {"+1", "-1", " 1", "1 ", "1\0", "0x", "1.", "\t1", "\n1"}) { std::string s = base; s[q] = r[0]; s[q + 1] = r[1]; p(s); }
  for (const char* r : {"+202", "-202", " 202", "20 4", "0x7f", "1e3 "}) p(r + base.substr(4));
  for (size_t i = 0; i < 17; i++) { std::string s = base; s.erase(i, 1); p(s); s = base; s.insert(i, 1, s[i]); p(s); s = base; s[i] = '\0'; p(s); }
  for (size_t i = 0; i + 1 < 17; i++) { std::string s = base; std::swap(s[i], s[i + 1]); p(s); }
  // boundaries of formatted fields
  const int ys[] = {0, 1, 70, 99, 100, 138, 8099}, mos[] = {0, 1, 8, 9, 10, 11}, ds[] = {1, 9, 10, 28, 31}, hs[] = {0, 9, 10, 12, 23}, ms[] = {0, 9, 10, 59}, ss[] = {0, 9, 10, 59, 60, 61};
  for (int y : ys) for (int mo : mos) for (int d : ds) for (int h : hs) for (int m : ms) for (int s : ss) fmt(y, mo, d, h, m, s);
  int n = thorough ? 200000 : 6000;
  for (int i = 0; i < n; i++) {
    fmt(g.upto(8100), g.upto(12), 1 + g.upto(31), g.upto(24), g.upto(60), g.upto(62), g.upto(7), g.upto(366), int(g.upto(3)) - 1);
    char b[32];
    snprintf(b, sizeof b, "%04u%02u%02uT%02u:%02u:%02u", 1880 + g.upto(300), g.upto(15), g.upto(34), g.upto(26), g.upto(63), g.upto(64));
    std::string s(b);
    if (g.coin(3)) s[g.upto(s.size())] = char(g.upto(256));
    p(s);
    if (g.coin(4)) p(g.from("0123456789T:", 17));
  }
}

int main(int argc, char** argv)
{
  ops()["parse"] = op_parse;
  ops()["fmt"] = op_fmt;
  return main_(argc, argv, battery);
}

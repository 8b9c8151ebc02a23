// C03: kind predicates and typed access, every kind against every accessor, contents varied.
#include "rt.h"
#include <memory>
#include <cmath>
#include <limits>
#include "libiqxmlrpc.h"
#include "value.h"
#include "value_type.h"
using namespace rt;
using namespace iqxmlrpc;

static const char BAD[] = "iqxmlrpc::Value::Bad_cast";
static const char* const NAMES[] = {"nil", "i4", "i8", "boolean", "double", "string", "base64", "dateTime.iso8601", "array", "struct"};
enum { NIL, I4, I8, BOOL, DBL, STR, BIN, DT, ARR, STRU, NK };

static Value make(int k, const std::string& arg, int how)
{
  switch (k) {
    case NIL: return how ? Value(new Nil) : Value(Nil());
    case I4: return how ? Value(new Int(atoi(arg.c_str()))) : Value(int(atoi(arg.c_str())));
    case I8: return how ? Value(new Int64(atoll(arg.c_str()))) : Value(int64_t(atoll(arg.c_str())));
    case BOOL: return how ? Value(new Bool(arg == "1")) : Value(arg == "1");
    case DBL: return how ? Value(new Double(strtod(arg.c_str(), 0))) : Value(strtod(arg.c_str(), 0));
    case STR: return how == 1 ? Value(new String(arg)) : how == 2 ? Value(std::string(arg.c_str()).c_str()) : Value(std::string(arg));
    case BIN: { std::unique_ptr<Binary_data> b(Binary_data::from_data(arg)); return how ? Value(b.release()) : Value(*b); }
    case DT: { Date_time d((std::string(arg))); return how == 1 ? Value(new Date_time(d)) : how == 2 ? Value(&d.get_tm()) : Value(d); }
    case ARR: { Array a; for (char c : arg) a.push_back(Value(int(c))); return how ? Value(new Array(a)) : Value(a); }
    default: { Struct s; for (char c : arg) s.insert(std::string(1, c), Value(int(c))); return how ? Value(new Struct(s)) : Value(s); }
  }
}

static std::string dump(const Value& v) { std::ostringstream o; print_value(v, o); return v.type_name() + ":" + o.str(); }

template <class F> void acc(const Value& v, bool ok, const char* what, F f)
{
  std::string before = dump(v);
  std::string n = thrown([&] { f(); });
  if (!ok) expect_str(n, BAD, std::string(what) + " on " + v.type_name());
  else expect_str(n, "", std::string(what) + " on " + v.type_name() + " raised");
  if (!ok) expect_str(dump(v), before, std::string("value changed by refused ") + what);
}

static void check(Value& v, int k, const std::string& arg, const std::string& via)
{
  const Value& cv = v;
  bool p[NK] = {cv.is_nil(), cv.is_int(), cv.is_int64(), cv.is_bool(), cv.is_double(), cv.is_string(), cv.is_binary(), cv.is_datetime(), cv.is_array(), cv.is_struct()};
  for (int i = 0; i < NK; i++) expect_eq(p[i], i == k, via + ": predicate for " + NAMES[i] + " on " + NAMES[k]);
  expect_str(cv.type_name(), NAMES[k], via + ": type name");
  acc(cv, k == I4, "get_int", [&] { expect_eq(cv.get_int(), atoi(arg.c_str()), "get_int"); });
  acc(cv, k == I4, "operator int", [&] { int x = cv; expect_eq(x, atoi(arg.c_str()), "operator int"); });
  acc(cv, k == I8, "get_int64", [&] { expect_eq(cv.get_int64(), int64_t(atoll(arg.c_str())), "get_int64"); });
  acc(cv, k == I8, "operator int64_t", [&] { int64_t x = cv; expect_eq(x, int64_t(atoll(arg.c_str())), "operator int64_t"); });
  acc(cv, k == BOOL, "get_bool", [&] { expect_eq(cv.get_bool(), arg == "1", "get_bool"); });
  acc(cv, k == BOOL, "operator bool", [&] { bool x = cv; expect_eq(x, arg == "1", "operator bool"); });
  acc(cv, k == DBL, "get_double", [&] { double a = cv.get_double(), b = strtod(arg.c_str(), 0); expect(memcmp(&a, &b, sizeof a) == 0, "get_double differs"); });
  acc(cv, k == DBL, "operator double", [&] { double a = cv, b = strtod(arg.c_str(), 0); expect(memcmp(&a, &b, sizeof a) == 0, "operator double differs"); });
  acc(cv, k == STR, "get_string", [&] { expect_str(cv.get_string(), arg, "get_string"); });
  acc(cv, k == STR, "operator string", [&] { std::string x = cv.operator std::string(); expect_str(x, arg, "operator string"); });
  acc(cv, k == BIN, "get_binary", [&] { expect_str(cv.get_binary().get_data(), arg, "get_binary"); });
  acc(cv, k == BIN, "operator Binary_data", [&] { Binary_data b = cv.operator Binary_data(); expect_str(b.get_data(), arg, "operator Binary_data"); });
  acc(cv, k == DT, "get_datetime", [&] { expect_str(cv.get_datetime().to_string(), arg, "get_datetime"); });
  acc(cv, k == DT, "operator tm", [&] { struct tm t = cv.operator struct tm(); expect_str(Date_time(&t).to_string(), arg, "operator tm"); });
  acc(cv, k == ARR, "the_array const", [&] { expect_eq(cv.the_array().size(), arg.size(), "the_array size"); });
  acc(v, k == ARR, "the_array", [&] { expect_eq(v.the_array().size(), arg.size(), "the_array size"); });
  acc(cv, k == ARR, "size", [&] { expect_eq(cv.size(), arg.size(), "size"); });
  acc(cv, k == ARR, "arr_begin/end", [&] { size_t n = 0; for (Array::const_iterator i = cv.arr_begin(); i != cv.arr_end(); ++i, ++n) expect_eq(i->get_int(), int(arg[n]), "element"); expect_eq(n, arg.size(), "iterated"); });
  acc(cv, k == ARR && !arg.empty(), "index const", [&] { if (k == ARR && arg.empty()) throw Value::Bad_cast(); expect_eq(cv[0].get_int(), int(arg[0]), "element 0"); });
  acc(v, k == ARR && !arg.empty(), "index", [&] { if (k == ARR && arg.empty()) throw Value::Bad_cast(); expect_eq(v[0].get_int(), int(arg[0]), "element 0"); });
  acc(cv, k == STRU, "the_struct const", [&] { expect_eq(cv.the_struct().size(), std::set<char>(arg.begin(), arg.end()).size(), "the_struct size"); });
  acc(v, k == STRU, "the_struct", [&] { v.the_struct(); });
  acc(cv, k == STRU, "has_field", [&] { expect_eq(cv.has_field("a"), arg.find('a') != arg.npos, "has_field"); });
  bool hasa = k == STRU && arg.find('a') != arg.npos;
  if (k != STRU || hasa) {
    acc(cv, hasa, "member const", [&] { expect_eq(cv[std::string("a")].get_int(), int('a'), "member"); });
    acc(v, hasa, "member", [&] { expect_eq(v[std::string("a")].get_int(), int('a'), "member"); });
    acc(cv, hasa, "member by char* const", [&] { expect_eq(cv["a"].get_int(), int('a'), "member"); });
    acc(v, hasa, "member by char*", [&] { expect_eq(v["a"].get_int(), int('a'), "member"); });
  }
  { Value w(v); acc(w, k == ARR, "push_back", [&] { w.push_back(Value(1)); }); }
  { Value w(v); acc(w, k == STRU, "insert", [&] { w.insert("zz", Value(1)); }); }
}

static void op_kind(const Args& a)
{
  int k = atoi(a[0].c_str()), how = atoi(a[1].c_str());
  std::string arg = unhex(a[2]);
  if (k == STR && how == 2) arg = arg.c_str();
  Value v = make(k, arg, how);
  check(v, k, arg, "made");
  Value c(v);
  check(c, k, arg, "copied");
  check(v, k, arg, "after copying");
  for (int j = a.size() > 3 ? int(arg.size() % NK) : 0; j < NK; j += a.size() > 3 ? NK : 1) {
    Value d = make(j, j == DT ? "20200102T03:04:05" : "1", 0);
    d = v;
    check(d, k, arg, "assigned");
  }
}

static void battery(Rng& g, bool thorough)
{
  bool few = false;
  auto r = [&](int k, int how, const std::string& s) { std::ostringstream o; o << "kind " << k << " " << how << " " << hex(s) << (few ? " few" : ""); run(o.str()); };
  for (int how = 0; how < 3; how++) {
    r(NIL, how, "");
    for (const char* s : {"0", "1", "-1", "2147483647", "-2147483648", "65536", "255"}) r(I4, how, s);
    for (const char* s : {"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "4294967296", "2147483648"}) r(I8, how, s);
    r(BOOL, how, "0"); r(BOOL, how, "1");
    for (const char* s : {"0", "-0", "1.5", "-1e300", "nan", "inf", "-inf", "4.9e-324", "0.1"}) r(DBL, how, s);
    for (const char* s : {"", "a", "hello world", "1", "<>&\""}) { r(STR, how, s); r(BIN, how, s); }
    r(STR, how, std::string("a\0b", 3)); r(BIN, how, std::string("\0\xff\0", 3));
    for (const char* s : {"19000101T00:00:00", "20240229T23:59:61", "99991231T12:30:00"}) r(DT, how, s);
    for (const char* s : {"", "a", "abc", "zay", "aaaa"}) { r(ARR, how, s); r(STRU, how, s); }
  }
  few = true;
  for (auto& w : lit_words()) { r(STR, int(w.size() % 3), w); r(BIN, int(w.size() % 2), w); }
  for (auto v : lit_nums()) { if (v < 2147483647) { r(I4, 0, std::to_string(v)); r(I4, 1, std::to_string(-v)); } r(I8, 1, std::to_string(v)); r(I8, 0, std::to_string(-v)); }
  int n = thorough ? 20000 : 900;
  for (int i = 0; i < n; i++) {
    std::ostringstream o;
    switch (g.upto(6)) {
      case 0: o << int(g.next()); r(I4, g.upto(2), o.str()); break;
      case 1: o << int64_t(g.next()); r(I8, g.upto(2), o.str()); break;
      case 2: r(STR, g.upto(3), g.bytes(g.upto(40))); break;
      case 3: r(BIN, g.upto(2), g.bytes(g.upto(40))); break;
      case 4: r(ARR, g.upto(2), g.from("abcdef", g.upto(12))); break;
      default: r(STRU, g.upto(2), g.from("abcdef", g.upto(12)));
    }
  }
}

int main(int argc, char** argv)
{
  ops()["kind"] = op_kind;
  return main_(argc, argv, battery);
}

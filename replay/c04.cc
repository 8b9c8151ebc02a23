// C04: container operation histories against a list/map model.  A case is a byte program run on four registers.
#include "rt.h"
#include <memory>
#include "libiqxmlrpc.h"
#include "value.h"
#include "value_type.h"
using namespace rt;
using namespace iqxmlrpc;

static const char OOR[] = "iqxmlrpc::Array::Out_of_range";
static const char NOF[] = "iqxmlrpc::Struct::No_field";

struct M {
  char k; long i; std::string s; std::vector<M> a; std::map<std::string, M> m;
  M(): k('n'), i(0) {}
};
static M mk(int sel, int x)
{
  M r;
  switch (sel % 8) {
    case 0: break;
    case 1: r.k = 'i'; r.i = x - 100; break;
    case 2: r.k = 'l'; r.i = (long)x << 33; break;
    case 3: r.k = 'b'; r.i = x & 1; break;
    case 4: r.k = 's'; r.s = std::string(x % 40, char('a' + x % 26)); break;
    case 5: r.k = 'x'; r.s = std::string(x % 5, char(x)); break;
    case 6: r.k = 'a'; break;
    default: r.k = 't';
  }
  return r;
}
static Value real(const M& m)
{
  switch (m.k) {
    case 'n': return Value(Nil());
    case 'i': return Value(int(m.i));
    case 'l': return Value(int64_t(m.i));
    case 'b': return Value(bool(m.i));
    case 's': return Value(m.s);
    case 'x': { std::unique_ptr<Binary_data> b(Binary_data::from_data(m.s)); return Value(*b); }
    case 'a': return Value(Array());
    default: return Value(Struct());
  }
}
static void same(const Value& v, const M& m, const std::string& at)
{
  switch (m.k) {
    case 'n': expect(v.is_nil(), at + ": nil expected, is " + v.type_name()); break;
    case 'i': expect(v.is_int(), at + ": int expected, is " + v.type_name()); expect_eq(v.get_int(), m.i, at); break;
    case 'l': expect(v.is_int64(), at + ": int64 expected, is " + v.type_name()); expect_eq(v.get_int64(), m.i, at); break;
    case 'b': expect(v.is_bool(), at + ": bool expected, is " + v.type_name()); expect_eq((long)v.get_bool(), m.i, at); break;
    case 's': expect(v.is_string(), at + ": string expected, is " + v.type_name()); expect_str(v.get_string(), m.s, at); break;
    case 'x': expect(v.is_binary(), at + ": binary expected, is " + v.type_name()); expect_str(v.get_binary().get_data(), m.s, at); break;
    case 'a': {
      expect(v.is_array(), at + ": array expected, is " + v.type_name());
      expect_eq(v.size(), m.a.size(), at + " size");
      size_t i = 0;
      for (Array::const_iterator p = v.arr_begin(); p != v.arr_end(); ++p, ++i) {
        expect(i < m.a.size(), at + ": iteration past the elements");
        same(*p, m.a[i], at + "[" + std::to_string(i) + "]");
        expect(&v[int(i)] == &*p, at + ": index and iteration disagree");
      }
      expect_eq(i, m.a.size(), at + " iterated");
      break;
    }
    default: {
      expect(v.is_struct(), at + ": struct expected, is " + v.type_name());
      const Struct& s = v.the_struct();
      expect_eq(s.size(), m.m.size(), at + " members");
      std::map<std::string, M>::const_iterator q = m.m.begin();
      for (Struct::const_iterator p = s.begin(); p != s.end(); ++p, ++q) {
        expect(q != m.m.end(), at + ": too many members");
        expect_str(p->first, q->first, at + " member name");
        same(*p->second, q->second, at + "." + p->first);
        expect(v.has_field(p->first), at + ": has_field denies a member");
      }
    }
  }
}
// every address below v, to see that nothing is shared
static void addrs(const Value& v, std::set<const void*>& out, const std::string& at)
{
  expect(out.insert(&v).second, at + ": one value object is stored twice");
  if (v.is_array()) for (size_t i = 0; i < v.size(); i++) addrs(v[int(i)], out, at + "[]");
  if (v.is_struct()) for (auto& p : v.the_struct()) addrs(*p.second, out, at + "." + p.first);
}
static const char* const NAMES[] = {"a", "b", "", "key", "A"};

static long weight(const M& m) { long n = 1; for (auto& x : m.a) n += weight(x); for (auto& x : m.m) n += weight(x.second); return n; }

static void history(const Args& args)
{
  std::string prog = unhex(args[0]);
  std::unique_ptr<Value> r[4];
  M m[4];
  for (int i = 0; i < 4; i++) { m[i] = mk(i == 1 ? 6 : i == 2 ? 7 : i == 3 ? 6 : 1, 7); r[i].reset(new Value(real(m[i]))); }
  size_t pc = 0;
  auto next = [&]() -> int { return pc < prog.size() ? (unsigned char)prog[pc++] : 0; };
  int step = 0;
  while (pc < prog.size() && step++ < 200) {
    int op = next() % 22, b = next(), d = b & 3, s = (b >> 2) & 3, x = next();
    // descend to a nested value now and then
    Value* v = r[d].get(); M* w = &m[d];
    if (b & 0x40) {
      if (w->k == 'a' && !w->a.empty()) { int i = x % w->a.size(); v = &(*v)[i]; w = &w->a[i]; }
      else if (w->k == 't' && !w->m.empty()) { auto p = w->m.begin(); std::advance(p, x % w->m.size()); v = &(*v)[p->first]; w = &p->second; }
    }
    const Value* sv = r[s].get(); const M* sw = &m[s];
    if (b & 0x80) {
      if (sw->k == 'a' && !sw->a.empty()) { int i = (x >> 1) % sw->a.size(); sv = &(*r[s])[i]; sw = &sw->a[i]; }
      else if (sw->k == 't' && !sw->m.empty()) { auto p = sw->m.begin(); std::advance(p, (x >> 1) % sw->m.size()); sv = &(*r[s])[p->first]; sw = &p->second; }
    }
    if (weight(m[0]) + weight(m[1]) + weight(m[2]) + weight(m[3]) > 400) break;
    std::string key = NAMES[x % 5];
    std::string at = "step " + std::to_string(step);
    M copy = *sw;
    switch (op) {
      case 0: { M n = mk(x, b); *v = real(n); *w = n; break; }
      case 1: case 2: *v = *sv; *w = copy; break;   // between registers or parts of them, also a part of itself
      case 3: { Value t(*sv); *v = t; *w = copy; } break;
      case 4: *v = *v; break;
      case 5: case 6: case 7: if (w->k == 'a') { v->push_back(*sv); w->a.push_back(copy); } break;
      case 8: if (w->k == 'a') { Value_ptr vp(new Value(*sv)); v->the_array().push_back(vp); w->a.push_back(copy); } break;
      case 9: case 10: case 11: if (w->k == 't') { v->insert(key, *sv); w->m[key] = copy; } break;
      case 12: if (w->k == 't') { Value_ptr vp(new Value(*sv)); v->the_struct().insert(key, vp); w->m[key] = copy; } break;
      case 13: if (w->k == 't') { v->the_struct().erase(key); w->m.erase(key); } break;
      case 14: if (w->k == 'a') { v->the_array().clear(); w->a.clear(); } break;
      case 15: if (w->k == 't') { v->the_struct().clear(); w->m.clear(); } break;
      case 16: if (w->k == 'a' && sw->k == 'a') { v->the_array() = sv->the_array(); w->a = copy.a; } 
               else if (w->k == 't' && sw->k == 't') { v->the_struct() = sv->the_struct(); w->m = copy.m; } break;
      case 17: if (w->k == 'a') { Array& a = v->the_array(); a = a; } else if (w->k == 't') { Struct& a = v->the_struct(); a = a; } break;
      case 18: if (w->k == 'a') { Array t(v->the_array()); t.push_back(Value(1)); t.clear(); Array u; u.push_back(Value("x")); u.swap(t); expect_eq(t.size(), size_t(1), "swap"); expect_eq(u.size(), size_t(0), "swap"); } 
               else if (w->k == 't') { Struct t(v->the_struct()); t.insert("zz", Value(1)); t.clear(); Struct u; u.insert("q", Value("x")); u.swap(t); expect_eq(t.size(), size_t(1), "swap"); expect_eq(u.size(), size_t(0), "swap"); } break;
      case 19: if (w->k == 'a' && step % 4 == 0) {
          size_t n = w->a.size();
          for (long i : {long(n), long(n) + 1, -1L, 1L << 30, -(1L << 31)}) {
            expect_str(thrown([&] { (void)(*v)[int(i)]; }), OOR, at + ": index " + std::to_string(i) + " of " + std::to_string(n));
            expect_str(thrown([&] { const Value& cv = *v; (void)cv[int(i)]; }), OOR, at + ": const index " + std::to_string(i) + " of " + std::to_string(n));
          }
        } break;
      case 20: if (w->k == 't') for (const char* k : NAMES) {
          bool has = w->m.count(k);
          const Value& cv = *v;
          expect_eq(v->has_field(k), has, at + ": has_field " + k);
          if (has || step % 4 == 0) {
          expect_str(thrown([&] { (void)(*v)[k]; }), has ? "" : NOF, at + ": member " + k);
          expect_str(thrown([&] { (void)cv[std::string(k)]; }), has ? "" : NOF, at + ": const member " + k);
          }
          expect_eq(v->the_struct().find(k) != v->the_struct().end(), has, at + ": find " + k);
        } break;
      case 21: { // assign from a copy kept elsewhere, then change the original
          Value keep(*v); M kw = *w;
          if (w->k == 'a') { v->push_back(Value("tail")); M t; t.k = 's'; t.s = "tail"; w->a.push_back(t); }
          else if (w->k == 't') { v->insert("tail", Value("tail")); M t; t.k = 's'; t.s = "tail"; w->m["tail"] = t; }
          else { *v = Value(5); M t; t.k = 'i'; t.i = 5; *w = t; }
          same(keep, kw, at + ": copy after the original changed");
          break; }
    }
    if (step % 3 == 0 || pc >= prog.size()) {
      std::set<const void*> seen;
      for (int i = 0; i < 4; i++) { same(*r[i], m[i], at + " register " + std::to_string(i)); addrs(*r[i], seen, at); }
    }
  }
  std::set<const void*> seen;
  for (int i = 0; i < 4; i++) { same(*r[i], m[i], "end, register " + std::to_string(i)); addrs(*r[i], seen, "end"); }
  // destruction in a varying order
  for (int i = 0; i < 4; i++) {
    r[(i + step) & 3].reset();
    for (int j = i + 1; j < 4; j++) same(*r[(j + step) & 3], m[(j + step) & 3], "after destroying others");
  }
}

// arrays of n elements: size, order, bounds, assign()
static void big(const Args& a)
{
  int n = atoi(a[0].c_str());
  Array arr;
  std::vector<int> src;
  for (int i = 0; i < n; i++) { arr.push_back(Value(i * 3)); src.push_back(i * 3); }
  Array b(arr), c2;
  c2.push_back(Value(1));
  c2.assign(src.begin(), src.end());
  std::unique_ptr<Array> cl(arr.clone());
  for (const Array* p : std::vector<const Array*>{&arr, &b, &c2, cl.get()}) {
    expect_eq(p->size(), size_t(n), "size");
    for (int i = 0; i < n; i++) expect_eq((*p)[i].get_int(), i * 3, "element");
    expect_str(thrown([&] { (void)(*p)[n]; }), OOR, "index at size");
    expect_str(thrown([&] { (void)(*p)[unsigned(-1)]; }), OOR, "index -1");
  }
  arr.clear();
  expect_eq(arr.size(), size_t(0), "cleared");
  expect_str(thrown([&] { (void)arr[0]; }), OOR, "index 0 of empty");
  for (int i = 0; i < n; i++) expect_eq((*cl)[i].get_int(), i * 3, "clone after clear");
  Struct s;
  for (int i = 0; i < n; i++) s.insert("k" + std::to_string(i), Value(i));
  std::unique_ptr<Struct> sc(s.clone());
  Struct s2; s2.insert("old", Value(1)); s2 = s;
  for (int i = 0; i < n; i += 2) s.erase("k" + std::to_string(i));
  expect_eq(s.size(), size_t(n / 2), "members after erase");
  expect_eq(sc->size(), size_t(n), "clone members");
  expect_eq(s2.size(), size_t(n), "assigned members");
  for (int i = 0; i < n; i++) { expect_eq((*sc)["k" + std::to_string(i)].get_int(), i, "clone member"); expect_eq(s2["k" + std::to_string(i)].get_int(), i, "assigned member"); expect_eq(s.has_field("k" + std::to_string(i)), i % 2 == 1, "erased member"); }
  expect(!s2.has_field("old"), "assignment keeps an old member");
}
static void nest(const Args& a)
{
  int n = atoi(a[0].c_str());
  Value v(1);
  for (int i = 0; i < n; i++) {
    if (i % 2) { Value t = Value(Array()); t.push_back(v); t.push_back(Value(i)); v = t; }
    else { Value t = Value(Struct()); t.insert("in", v); t.insert("d", Value(i)); v = t; }
  }
  Value c(v);
  Value* p = &v; const Value* q = &c;
  for (int i = n - 1; i >= 0; i--) {
    expect_eq(i % 2 ? (*q)[1].get_int() : (*q)["d"].get_int(), i, "nested copy");
    if (i % 2) (*p)[1] = Value("changed"); else p->insert("d", Value("changed"));
    expect_eq(i % 2 ? (*q)[1].get_int() : (*q)["d"].get_int(), i, "nested copy after change");
    p = i % 2 ? &(*p)[0] : &(*p)["in"]; q = i % 2 ? &(*q)[0] : &(*q)["in"];
  }
  expect_eq(q->get_int(), 1, "innermost");
}

static Value deep(const M& m)
{
  Value v = real(m);
  for (auto& x : m.a) v.push_back(deep(x));
  for (auto& x : m.m) v.insert(x.first, deep(x.second));
  return v;
}
// a container of n elements with a container of the same or the other sort of k elements at place p in it: one is assigned to, or put into, the other
static void alias(const Args& a)
{
  int n = atoi(a[0].c_str()), k = atoi(a[1].c_str()), p = atoi(a[2].c_str()), op = atoi(a[3].c_str());
  bool arr = a[4] == "a", iarr = a[5] == "a";
  auto fill = [](bool isarr, int cnt, int base) {
    M m = mk(isarr ? 6 : 7, 0);
    for (int i = 0; i < cnt; i++) { M x = i % 2 ? mk(4, base + i) : mk(1, base + i); if (isarr) m.a.push_back(x); else m.m["k" + std::to_string(i)] = x; }
    return m;
  };
  M out = fill(arr, n, 10), in = fill(iarr, k, 70);
  M far = fill(iarr, k, 130);
  if (iarr) { if (k) in.a[0] = far; } else if (k) in.m["k0"] = far;
  std::string key = "k" + std::to_string(p);
  if (arr) out.a[p] = in; else out.m[key] = in;
  Value v = deep(out);
  Value& e = arr ? v[p] : v[key];
  M& w = arr ? out.a[p] : out.m[key];
  const M was = out, part = w;
  switch (op) {
    case 0: v = e; out = part; break;
    case 1: e = v; w = was; break;
    case 2: if (arr == iarr) { if (arr) { v.the_array() = e.the_array(); } else v.the_struct() = e.the_struct(); out = part; } break;
    case 3: if (arr == iarr) { if (arr) e.the_array() = v.the_array(); else e.the_struct() = v.the_struct(); w = was; } break;
    case 4: if (arr) { v.push_back(e); out.a.push_back(part); } else { v.insert(key, e); } break;
    case 5: if (arr) { v.push_back(v); out.a.push_back(was); } else { v.insert(key, v); out.m[key] = was; } break;
    case 6: if (!arr) { v.insert("new", e); out.m["new"] = part; } break;
    case 7: if (k && iarr) { v = e[0]; out = part.a[0]; } else if (k) { v = e["k0"]; out = part.m.find("k0")->second; } break;
    case 8: if (k && !arr) { if (iarr) { v.insert(key, e[0]); out.m[key] = part.a[0]; } else { v.insert(key, e["k0"]); out.m[key] = part.m.find("k0")->second; } } break;
    case 9: if (k && arr == iarr) { if (arr) { v.the_array() = e[0].the_array(); out = part.a[0]; } else { v.the_struct() = e["k0"].the_struct(); out = part.m.find("k0")->second; } } break;
  }
  same(v, out, "container");
  std::set<const void*> seen;
  addrs(v, seen, "container");
  Value c(v);
  v = Value(1);
  same(c, out, "its copy");
}

static void battery(Rng& g, bool thorough)
{
  for (int n : {1, 2, 3, 4}) for (int k : {0, 1, 2, 3, 4}) for (int p : {0, n / 2, n - 1}) for (int op = 0; op < 10; op++)
    for (const char* t : {"a a", "t t", "a t", "t a"}) if (p || n < 3 || op < 5) run("alias " + std::to_string(n) + " " + std::to_string(k) + " " + std::to_string(p) + " " + std::to_string(op) + " " + t);
  for (int n : {0, 1, 2, 3, 7, 64, 300}) run("big " + std::to_string(n));
  for (int n : {1, 2, 5, 30}) run("nest " + std::to_string(n));
  // short directed programs: each operation alone and each pair, on each register
  for (int o = 0; o < 22; o++) for (int b : {0x01, 0x05, 0x06, 0x09, 0x0a, 0x0d, 0x12, 0x02}) {
    std::string p;
    for (int f : {5, 9}) for (int bb : {0x01, 0x02, 0x05, 0x06}) { p += char(f); p += char(bb); p += char(f); }
    p += char(o); p += char(b); p += char(3);
    p += char(o); p += char(b); p += char(3);
    p += char(20); p += char(2); p += char(0); p += char(19); p += char(1); p += char(0);
    run("history " + hex(p));
  }
  for (int i = 0; i < (thorough ? 20000 : 3000); i++) run("history " + hex(g.bytes(6 + g.upto(150))));
}

int main(int argc, char** argv)
{
  ops()["history"] = history; ops()["big"] = big; ops()["nest"] = nest; ops()["alias"] = alias;
  return main_(argc, argv, battery);
}

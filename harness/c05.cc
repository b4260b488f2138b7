#include "gals_gen.h"
// C05: small vectors and matrices obey their algebra for all component values.
template <class T>
struct Gen;
template <>
struct Gen<double> {
  static double one(Ctx &c, double sc)
  {
    switch (c.draw(5)) {
      case 0: return sc * c.integer(-3, 3);
      case 1: return sc * c.signedReal(1);
      case 2: return (c.coin() ? -1 : 1) * c.magnitude(-12, 12);
      default: return sc * (2 * c.unit() - 1);
    }
  }
  static double scale(Ctx &c) { return c.magnitude(-6, 6); }
};
template <>
struct Gen<int> {
  static int one(Ctx &c, double) { return c.coin() ? c.integer(-3, 3) : c.integer(-5000, 5000); }
  static double scale(Ctx &) { return 1; }
};
// result of a single correctly rounded operation (2 ulp of slack so that re-associated but equivalent code passes)
template <class T>
static bool near1(T got, LD want, LD scale)
{
  if (std::is_integral<T>::value) return (LD)got == want;
  return pbt::close((LD)got, want, 4 * EPS * std::max(fabsl(want), scale) + 1e-300L);
}
template <class T>
static std::vector<T> comps(Ctx &c, int n)
{
  double sc = Gen<T>::scale(c);
  std::vector<T> v(n);
  for (auto &x : v) x = Gen<T>::one(c, sc);
  if (n > 1 && c.coin(1, 3)) v[c.draw(n)] = v[c.draw(n)];  // ties
  return v;
}
static void parseTokens(const std::string &s, std::vector<std::string> &t)
{
  std::istringstream is(s);
  std::string w;
  while (is >> w) t.push_back(w);
}
template <class E, class T>
static void checkText(const E &e, const std::vector<T> &v, const char *what)
{
  std::ostringstream os;
  os << e;
  std::vector<std::string> t;
  parseTokens(os.str(), t);
  PBT_CHECK(t.size() == v.size(), what << " text output has " << t.size() << " components: '" << os.str() << "'");
  for (size_t i = 0; i < v.size(); ++i) {
    LD x = strtold(t[i].c_str(), nullptr);
    PBT_CHECK(pbt::close(x, (LD)v[i], 5.1e-6L * fabsl((LD)v[i])), what << " text output component " << i << " is " << t[i] << ", expected " << v[i]);
  }
}
template <class T>
static bool expectEqual(T a, T b, int &verdict)
{  // verdict: 1 equal, 0 different, -1 too close to the threshold to tell
  LD d = fabsl((LD)a - (LD)b);
  if (std::is_integral<T>::value)
    verdict = a == b;
  else
    verdict = d <= 0.9e-10L ? 1 : d >= 1.1e-10L ? 0 : -1;
  return true;
}

// Equality of two whole objects: true iff every component agrees; -1 if some component is too close to the threshold.
template <class T>
static int expectAll(const std::vector<T> &a, const std::vector<T> &b)
{
  int all = 1;
  for (size_t i = 0; i < a.size(); ++i) {
    int v;
    expectEqual<T>(a[i], b[i], v);
    if (v == 0) return 0;
    if (v < 0) all = -1;
  }
  return all;
}
// components related to a: permuted, negated, shifted, swapped, cyclically moved, several perturbed
template <class T>
static std::vector<T> related(Ctx &c, const std::vector<T> &a)
{
  std::vector<T> b = a;
  switch (c.draw(7)) {
    case 0: std::swap(b[c.draw(b.size())], b[c.draw(b.size())]); break;
    case 1: std::rotate(b.begin(), b.begin() + 1 + c.draw(b.size() - 1), b.end()); break;
    case 2: for (auto &x : b) x = -x; break;
    case 3: b[c.draw(b.size())] *= -1; break;
    case 4: {  // changes that cancel in a sum
      T d = Gen<T>::one(c, 1);
      b[c.draw(b.size())] += d, b[c.draw(b.size())] -= d;
      break;
    }
    case 5: for (auto &x : b) if (c.coin()) x = (T)(x + (std::is_integral<T>::value ? (T)c.integer(-2, 2) : (T)(c.signedReal(1) * c.magnitude(-12, 0)))); break;
    default: std::sort(b.begin(), b.end()); break;
  }
  return b;
}

template <class T>
static void vec3(Ctx &c)
{
  typedef gc::Vec3<T> V;
  std::vector<T> a = comps<T>(c, 3), b = comps<T>(c, 3);
  PBT_NOTE(c, "Vec3 a=(" << a[0] << "," << a[1] << "," << a[2] << ") b=(" << b[0] << "," << b[1] << "," << b[2] << ")");
  V va(a[0], a[1], a[2]), vb(b);
  const V ca(va), cb(vb);
  auto str = [&] { return PBT_STR("a=(" << a[0] << "," << a[1] << "," << a[2] << ") b=(" << b[0] << "," << b[1] << "," << b[2] << ")"); };
  PBT_CHECK(va.size() == 3, "Vec3 size");
  V z;
  for (int i = 0; i < 3; ++i) {
    PBT_CHECK(va[i] == a[i] && ca[i] == a[i], "Vec3 construction/access component " << i << " " << str());
    PBT_CHECK(vb[i] == b[i] && cb[i] == b[i], "Vec3 construction from std::vector component " << i << " " << str());
    PBT_CHECK(z[i] == 0, "default Vec3 not zero");
  }
  V sub = ca - cb, mul = ca * cb;
  T sc = Gen<T>::one(c, 1);
  V scl = ca * sc;
  for (int i = 0; i < 3; ++i) {
    PBT_CHECK(near1(sub[i], (LD)a[i] - (LD)b[i], 0), "Vec3 subtraction component " << i << ": " << sub[i] << " " << str());
    PBT_CHECK(near1(mul[i], (LD)a[i] * (LD)b[i], 0), "Vec3 product component " << i << ": " << mul[i] << " " << str());
    PBT_CHECK(near1(scl[i], (LD)a[i] * (LD)sc, 0), "Vec3 scaling component " << i << ": " << scl[i] << " by " << sc << " " << str());
  }
  if (b[0] != 0 && b[1] != 0 && b[2] != 0) {
    V q = ca / cb;
    for (int i = 0; i < 3; ++i) {
      if (std::is_integral<T>::value)
        PBT_CHECK(q[i] == (T)((long)a[i] / (long)b[i]), "Vec3 integer quotient component " << i << " " << str());
      else
        PBT_CHECK(near1(q[i], (LD)a[i] / (LD)b[i], 0), "Vec3 quotient component " << i << ": " << q[i] << " " << str());
    }
  }
  T mn = std::min(a[0], std::min(a[1], a[2]));
  PBT_CHECK(ca.min() == mn, "Vec3 minimum " << ca.min() << " expected " << mn << " " << str());
  LD mg = sqrtl((LD)a[0] * a[0] + (LD)a[1] * a[1] + (LD)a[2] * a[2]);
  PBT_CHECK(pbt::close(ca.mag(), mg, 8 * EPS * mg), "Vec3 magnitude " << ca.mag() << " expected " << mg << " " << str());
  // equality: same, then one component perturbed
  V same(ca);
  PBT_CHECK(same == ca && ca == same, "Vec3 not equal to its copy " << str());
  int pos = (int)c.draw(3);
  T delta = std::is_integral<T>::value ? (T)(c.coin() ? 1 : -1) * (T)c.integer(1, 1000) : (T)((c.coin() ? -1 : 1) * c.magnitude(-12, 3));
  same[pos] = (T)(same[pos] + delta);
  PBT_CHECK(ca[pos] == a[pos], "writing a copy changed the original");
  int want;
  expectEqual<T>(same[pos], ca[pos], want);
  if (want >= 0) {
    PBT_CHECK((same == ca) == (want == 1), "Vec3 equality with component " << pos << " differing by " << delta << " gives " << (same == ca) << " " << str());
    PBT_CHECK((ca == same) == (want == 1), "Vec3 equality not symmetric, component " << pos << " differing by " << delta << " " << str());
  }
  {
    std::vector<T> r = related(c, a);
    const V cr(r);
    int w = expectAll(a, r);
    if (w >= 0) PBT_CHECK((ca == cr) == (w == 1) && (cr == ca) == (w == 1), "Vec3 equality with (" << cr << ") gives " << (ca == cr) << "/" << (cr == ca) << " " << str());
  }
  V as;
  as = ca;
  for (int i = 0; i < 3; ++i) PBT_CHECK(as[i] == a[i], "Vec3 assignment component " << i);
  as[pos] = b[pos];
  for (int i = 0; i < 3; ++i) {
    PBT_CHECK(as[i] == (i == pos ? b[i] : a[i]), "Vec3 write through subscript " << pos << " hit component " << i);
    PBT_CHECK(ca[i] == a[i] && cb[i] == b[i], "operand modified");
  }
  checkText(ca, a, "Vec3");
}
template <class T>
static void mat3(Ctx &c)
{
  typedef gc::Mat3<T> M;
  typedef gc::Vec3<T> V;
  std::vector<T> a = comps<T>(c, 9), b = comps<T>(c, 9), v = comps<T>(c, 3);
  if (std::is_integral<T>::value)
    for (auto &x : a) x = (T)((long)x % 700);
  auto str = [&] {
    std::ostringstream o;
    o.precision(17);
    o << "M=(";
    for (auto x : a) o << x << " ";
    o << ") v=(" << v[0] << "," << v[1] << "," << v[2] << ")";
    return o.str();
  };
  PBT_NOTE(c, "Mat3 " << str());
  const M ma(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
  const M mb(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]);
  M z;
  PBT_CHECK(ma.size() == 9, "Mat3 size");
  for (int i = 0; i < 9; ++i) {
    PBT_CHECK(z[i] == 0, "default Mat3 not zero");
    PBT_CHECK(ma[i] == a[i] && ma(i / 3, i % 3) == a[i], "Mat3 row-major access entry " << i << " " << str());
  }
  M sub = ma - mb;
  T sc = Gen<T>::one(c, 1);
  M scl = ma * sc;
  for (int i = 0; i < 9; ++i) {
    PBT_CHECK(near1(sub[i], (LD)a[i] - (LD)b[i], 0), "Mat3 subtraction entry " << i << " " << str());
    PBT_CHECK(near1(scl[i], (LD)a[i] * (LD)sc, 0), "Mat3 scaling entry " << i << " by " << sc << " " << str());
  }
  const V vv(v[0], v[1], v[2]);
  V d = ma.dot(vv);
  for (int i = 0; i < 3; ++i) {
    LD w = 0, s = 0;
    for (int j = 0; j < 3; ++j) w += (LD)a[j * 3 + i] * v[j], s += fabsl((LD)a[j * 3 + i] * v[j]);
    PBT_CHECK(near1(d[i], w, 2 * s), "Mat3 contraction component " << i << ": " << d[i] << " expected " << w << " " << str());
    PBT_CHECK(vv[i] == v[i], "operand modified");
  }
  M w(ma);
  PBT_CHECK(w == ma && ma == w, "Mat3 not equal to its copy");
  int pos = (int)c.draw(9);
  T delta = std::is_integral<T>::value ? (T)(c.coin() ? 1 : -1) * (T)c.integer(1, 1000) : (T)((c.coin() ? -1 : 1) * c.magnitude(-12, 3));
  if (c.coin())
    w[pos] = (T)(w[pos] + delta);
  else
    w(pos / 3, pos % 3) = (T)(a[pos] + delta);
  int want;
  expectEqual<T>(w[pos], a[pos], want);
  if (want >= 0) {
    PBT_CHECK((w == ma) == (want == 1), "Mat3 equality with entry " << pos << " differing by " << delta << " gives " << (w == ma) << " " << str());
    PBT_CHECK((ma == w) == (want == 1), "Mat3 equality not symmetric, entry " << pos << " differing by " << delta);
  }
  for (int i = 0; i < 9; ++i) PBT_CHECK(i == pos || w[i] == a[i], "Mat3 write to entry " << pos << " hit entry " << i);
  {
    std::vector<T> r = related(c, a);
    const M mr(r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8]);
    int q = expectAll(a, r);
    if (q >= 0) PBT_CHECK((ma == mr) == (q == 1) && (mr == ma) == (q == 1), "Mat3 equality with (" << mr << ") gives " << (ma == mr) << "/" << (mr == ma) << " " << str());
    std::vector<T> t(9);
    for (int i = 0; i < 9; ++i) t[i] = a[i % 3 * 3 + i / 3];
    const M mt(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8]);
    q = expectAll(a, t);
    if (q >= 0) PBT_CHECK((ma == mt) == (q == 1), "Mat3 equality with its transpose gives " << (ma == mt) << " " << str());
  }
  M as;
  as = mb;
  for (int i = 0; i < 9; ++i) PBT_CHECK(as[i] == b[i] && ma[i] == a[i] && mb[i] == b[i], "Mat3 assignment entry " << i);
  checkText(ma, a, "Mat3");
}
template <class T, int N>
static void vecn(Ctx &c)
{
  typedef gc::VecN<T, N> V;
  std::vector<T> a = comps<T>(c, N);
  V v;
  const V &cv = v;
  PBT_CHECK(v.size() == N, "VecN size " << v.size());
  for (int i = 0; i < N; ++i) PBT_CHECK(v[i] == 0, "default VecN not zero");
  for (int i = 0; i < N; ++i) v[i] = a[i];
  V w(v);
  for (int i = 0; i < N; ++i) PBT_CHECK(v[i] == a[i] && cv[i] == a[i] && w[i] == a[i], "VecN component " << i);
  if (N) {
    int p = (int)c.draw(N);
    w[p] = (T)(a[p] + 1000);
    for (int i = 0; i < N; ++i) PBT_CHECK(v[i] == a[i] && (i == p || w[i] == a[i]), "VecN copy not independent");
    V x;
    x = w;
    w[p] = 0;
    for (int i = 0; i < N; ++i) PBT_CHECK(x[i] == (i == p ? (T)(a[p] + 1000) : a[i]), "VecN assignment component " << i);
  }
  PBT_NOTE(c, "VecN size " << N);
  checkText(cv, a, "VecN");
}
// Operations that cannot overflow, over the whole range of the component type.
static int anyOf(Ctx &c, int) { return c.coin() ? c.integer(-1000000000, 1000000000) : (c.coin() ? -1 : 1) * ((1 << c.integer(0, 29)) + c.integer(-1, 1)); }
static double anyOf(Ctx &c, double) { return (c.coin() ? -1 : 1) * c.magnitude(-150, 150); }
template <class V, class T>
static void wide(Ctx &c, int n, const char *what)
{
  V a, b;
  std::vector<T> x(n), y(n);
  bool base = c.coin();
  T around = anyOf(c, T());
  for (int i = 0; i < n; ++i) {
    x[i] = base ? around : anyOf(c, T());
    y[i] = c.coin(2, 3) ? x[i] : anyOf(c, T());
    if (c.coin(1, 4)) y[i] = std::is_integral<T>::value ? (T)(y[i] + (T)c.integer(-1, 1)) : (T)(-y[i]);
    a[i] = x[i], b[i] = y[i];
  }
  const V ca(a), cb(b);
  std::string str;
  for (int i = 0; i < n; ++i) str += PBT_STR(" " << x[i] << "/" << y[i]);
  PBT_NOTE(c, what << " wide" << str);
  int w = expectAll(x, y);
  if (w >= 0) PBT_CHECK((ca == cb) == (w == 1) && (cb == ca) == (w == 1), what << " equality gives " << (ca == cb) << "/" << (cb == ca) << str);
  PBT_CHECK(ca == ca, what << " not equal to itself" << str);
  V d = ca - cb, z = ca - ca;
  T one = c.coin() ? 1 : -1;
  V s = ca * one;
  a = ca, a = *&a;
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(near1(d[i], (LD)x[i] - (LD)y[i], 0), what << " subtraction component " << i << ": " << d[i] << str);
    PBT_CHECK(z[i] == 0, what << " difference with itself" << str);
    PBT_CHECK(s[i] == x[i] * one, what << " scaling by " << one << " component " << i << ": " << s[i] << str);
    PBT_CHECK(a[i] == x[i] && ca[i] == x[i] && cb[i] == y[i], what << " assignment component " << i << str);
  }
  checkText(ca, x, what);
}
template <class T>
static void wideMin(Ctx &c)
{
  T x[3] = {anyOf(c, T()), anyOf(c, T()), anyOf(c, T())};
  const gc::Vec3<T> v(x[0], x[1], x[2]);
  PBT_NOTE(c, "min of " << x[0] << " " << x[1] << " " << x[2]);
  PBT_CHECK(v.min() == std::min(x[0], std::min(x[1], x[2])), "Vec3 minimum of (" << x[0] << "," << x[1] << "," << x[2] << ") is " << v.min());
  if (!std::is_integral<T>::value) {
    LD mg = sqrtl((LD)x[0] * x[0] + (LD)x[1] * x[1] + (LD)x[2] * x[2]);
    PBT_CHECK(pbt::close(v.mag(), mg, 8 * EPS * mg), "Vec3 magnitude of (" << x[0] << "," << x[1] << "," << x[2] << ") is " << v.mag());
  }
}
static void prop(Ctx &c)
{
  if (c.coin(1, 8)) {
    c.label("whole component range");
    c.nontrivial();
    switch (c.draw(6)) {
      case 0: return wide<gc::Vec3<int>, int>(c, 3, "Vec3<int>");
      case 1: return wide<gc::Vec3<double>, double>(c, 3, "Vec3<double>");
      case 2: return wide<gc::Mat3<int>, int>(c, 9, "Mat3<int>");
      case 3: return wide<gc::Mat3<double>, double>(c, 9, "Mat3<double>");
      case 4: return wideMin<int>(c);
      default: return wideMin<double>(c);
    }
  }
  int k = (int)c.draw(12);
  c.label(k < 3 ? "Vec3<double>" : k < 5 ? "Vec3<int>" : k < 8 ? "Mat3<double>" : k < 10 ? "Mat3<int>" : "VecN");
  c.nontrivial();
  if (k < 3) return vec3<double>(c);
  if (k < 5) return vec3<int>(c);
  if (k < 8) return mat3<double>(c);
  if (k < 10) return mat3<int>(c);
  switch (c.draw(8)) {
    case 0: return vecn<int, 1>(c);
    case 1: return vecn<int, 2>(c);
    case 2: return vecn<int, 3>(c);
    case 3: return vecn<double, 1>(c);
    case 4: return vecn<double, 2>(c);
    case 5: return vecn<double, 3>(c);
    case 6: return vecn<double, 4>(c);
    default: return vecn<double, 0>(c);
  }
}
PBT_MAIN("C05", "random operands (ties, signs, magnitudes 1e-12..1e12) for each type; every case exercises every operator of its type and perturbs one component, so each distinct operand set is non-trivial", prop)

// C15: steps of the More-Thuente line search
#include "pbt.h"
#include <ndt_gslam/registration/ndt_reg_tools.h>
using pbt::Case;
using namespace pcl::ndt_reg;
namespace
{
// a smooth function of one variable
struct Phi {
  double a[5], w, p, s;
  double f(double x) const
  {
    return ((((a[4] * x + a[3]) * x + a[2]) * x + a[1]) * x + a[0]) + s * std::sin(w * x + p);
  }
  double g(double x) const
  {
    return (((4 * a[4] * x + 3 * a[3]) * x + 2 * a[2]) * x + a[1]) + s * w * std::cos(w * x + p);
  }
};
Phi genPhi(Case& c, bool cubic_only = false)
{
  Phi r;
  for (int i = 0; i < 5; ++i)
    r.a[i] = c.real(-2, 2);
  r.a[4] = c.coin(60) ? 0 : std::fabs(r.a[4]) * 0.1;
  r.w = c.real(0.2, 4);
  r.p = c.angle();
  r.s = c.coin(50) ? 0 : c.real(-2, 2);
  if (cubic_only)
    r.a[4] = r.s = 0;
  return r;
}
struct End {
  double a, f, g;
};
End at(const Phi& p, double x)
{
  return End{x, p.f(x), p.g(x)};
}
std::string str(const End& e)
{
  return pbt::cat("(", e.a, " f ", e.f, " g ", e.g, ")");
}
typedef long double LD;
// minimiser of the cubic through values and slopes of two points; NaN if none
LD cubicMin(const End& l, const End& t)
{
  // in s = (a - l) / h: q(s) = f_l + G_l s + B s^2 + C s^3
  LD h = (LD)t.a - l.a, gl = h * l.g, gt = h * t.g, d = (LD)t.f - l.f;
  LD B = 3 * d - 2 * gl - gt, C = gl + gt - 2 * d;
  // q' = gl + 2 B s + 3 C s^2 with q'' = 2 B + 6 C s >= 0
  LD disc = B * B - 3 * C * gl;
  if (disc < 0)
    return NAN;
  // root with q'' = +2 sqrt(disc), in the form that does not cancel
  LD r = std::sqrt(disc), s;
  if (B >= 0)
    s = -gl / (B + r);
  else
    s = (r - B) / (3 * C);
  return l.a + h * s;
}
// minimiser of the parabola through both values and the slope at l
LD parabolaMin(const End& l, const End& t)
{
  LD h = (LD)t.a - l.a, d = (LD)t.f - l.f;
  return l.a - h * (h * l.g) / (2 * (d - h * l.g));
}
LD secantMin(const End& l, const End& t)
{
  return l.a - (LD)l.g * ((LD)t.a - l.a) / ((LD)t.g - l.g);
}
bool between(double x, double a, double b, double tol)
{
  return x >= std::min(a, b) - tol && x <= std::max(a, b) + tol;
}
double trial(const End& l, const End& u, const End& t)
{
  return trialValueSelectionMT(l.a, l.f, l.g, u.a, u.f, u.g, t.a, t.f, t.g);
}
struct Tri {
  End l, u, t;
};
// an interval as the search keeps it: at l the function falls towards u
Tri genTri(Case& c, const Phi& p)
{
  Tri r;
  double x = c.real(-2, 2), d = c.logreal(0.05, 3);
  r.l = at(p, x);
  c.assume(std::fabs(r.l.g) > 1e-3);
  double dir = r.l.g < 0 ? 1 : -1;
  r.u = at(p, x + dir * d);
  r.t = at(p, x + dir * d * (c.coin(75) ? c.uniform(0.02, 0.98) : c.uniform(0.9, 2)));
  return r;
}
}

PBT_TEST(trial_value, 120000, 4000000)
{
  Phi p = genPhi(c);
  Tri q = genTri(c, p);
  const End &l = q.l, &u = q.u, &t = q.t;
  c.note("l ", str(l), " u ", str(u), " t ", str(t));
  double got = trial(l, u, t);
  double span = std::fabs(t.a - l.a) + std::fabs(u.a - l.a);
  LD want, alt = NAN;
  int cs;
  double margin = 1e-7 * (1 + std::fabs(l.g));
  c.assume(std::fabs(t.f - l.f) > 1e-7 && std::fabs(t.g) > 1e-7);
  if (t.f > l.f) {
    cs = 1;
    LD ac = cubicMin(l, t), aq = parabolaMin(l, t);
    LD x = std::fabs(ac - l.a), y = std::fabs(aq - l.a);
    want = x < y ? ac : (ac + aq) / 2;
    if (std::fabs(x - y) < 1e-6 * span)
      alt = x < y ? (ac + aq) / 2 : ac;
  } else if (t.g * l.g < 0) {
    cs = 2;
    LD ac = cubicMin(l, t), as = secantMin(l, t);
    LD x = std::fabs(ac - t.a), y = std::fabs(as - t.a);
    want = x >= y ? ac : as;
    if (std::fabs(x - y) < 1e-6 * span)
      alt = x >= y ? as : ac;
  } else if (std::fabs(t.g) <= std::fabs(l.g)) {
    cs = 3;
    c.assume(std::fabs(t.g - l.g) > 1e-4);
    LD h = (LD)t.a - l.a, d = (LD)t.f - l.f;
    LD B = 3 * d - 2 * h * l.g - h * t.g, C = h * l.g + h * t.g - 2 * d;
    LD disc = B * B - 3 * C * h * l.g;
    c.assume(std::fabs(disc) > 1e-6 * (B * B + std::fabs(C * h * l.g)) && (disc < 0 || std::fabs(B) + std::fabs(C) > 1e-4));
    if (disc >= 0 && B < 0)
      c.assume(std::fabs(C) > 1e-3 * std::fabs(B));
    if (disc >= 0 && B >= 0)
      c.assume(B + std::sqrt(disc) > 1e-3 * (std::fabs(h * l.g)));
    LD ac = cubicMin(l, t), as = secantMin(l, t), cap = t.a + 0.66L * ((LD)u.a - t.a);
    LD x = std::fabs(ac - t.a), y = std::fabs(as - t.a);
    auto cut = [&](LD v) { return t.a > l.a ? std::min(cap, v) : std::max(cap, v); };
    LD n = x < y ? ac : as;  // a missing cubic minimiser leaves the secant
    want = cut(n);
    if (!std::isnan(ac) && std::fabs(x - y) < 1e-6 * (span + x))
      alt = cut(x < y ? as : ac);
  } else {
    cs = 4;
    c.assume(std::fabs(t.a - u.a) > 1e-3);
    LD h = (LD)t.a - u.a, d = (LD)t.f - u.f;
    LD B = 3 * d - 2 * h * u.g - h * t.g, C = h * u.g + h * t.g - 2 * d;
    LD disc = B * B - 3 * C * h * u.g;
    c.assume(disc > 1e-4 * B * B);
    if (B < 0)
      c.assume(std::fabs(C) > 1e-3 * std::fabs(B));
    else
      c.assume(B + std::sqrt(disc) > 1e-3 * std::fabs(h * u.g));
    want = cubicMin(u, t);
  }
  static const char* names[] = {"", "case 1", "case 2", "case 3", "case 4"};
  c.label(names[cs]);
  c.label(t.a > l.a ? "forward" : "backward");
  c.nontrivial(t.a < l.a || cs >= 3);
  double tol = 1e-5 * (span + (double)std::fabs(want)) + margin * 0;
  PBT_REQUIRE("choice", std::fabs(got - want) <= tol || std::fabs(got - alt) <= tol, "case ", cs, " got ", got, " want ",
              (double)want, " or ", (double)alt);
  if (cs == 1)
    PBT_REQUIRE("bracketed", between(got, l.a, t.a, tol), "case 1 got ", got);
  if (cs == 2)
    PBT_REQUIRE("bracketed", between(got, l.a, t.a, tol), "case 2 got ", got);
  if (cs == 3 && t.a > l.a)
    PBT_REQUIRE("safeguard", got <= t.a + 0.66 * (u.a - t.a) + tol, "case 3 got ", got);
  if (cs == 3 && t.a < l.a)
    PBT_REQUIRE("safeguard", got >= t.a + 0.66 * (u.a - t.a) - tol, "case 3 got ", got);
}

// looking along the line in the other direction, or shifting and scaling the
// function, changes nothing but the coordinates
PBT_TEST(trial_value_symmetries, 60000, 2000000)
{
  Phi p = genPhi(c);
  Tri q = genTri(c, p);
  double got = trial(q.l, q.u, q.t);
  c.assume(std::fabs(q.t.f - q.l.f) > 1e-4 && std::fabs(q.t.g) > 1e-4 && std::fabs(q.t.g - q.l.g) > 1e-2);
  c.assume(std::fabs(std::fabs(q.t.g) - std::fabs(q.l.g)) > 1e-6);
  auto mirror = [](End e) { return End{-e.a, e.f, -e.g}; };
  double m = trial(mirror(q.l), mirror(q.u), mirror(q.t));
  double k = c.pick(std::vector<double>{0.25, 0.5, 2, 8});
  auto scale = [&](End e) { return End{e.a, e.f * k, e.g * k}; };
  double s = trial(scale(q.l), scale(q.u), scale(q.t));
  c.note("l ", str(q.l), " u ", str(q.u), " t ", str(q.t), " got ", got);
  c.nontrivial(q.t.a < q.l.a || std::fabs(q.t.g) > std::fabs(q.l.g));
  double tol = 1e-9 * (1 + std::fabs(got));
  // when a cubic has no minimiser nothing is promised about its stand-in
  if (!std::isfinite(got) || std::fabs(got) > 100) {
    c.label("no minimiser");
    return;
  }
  PBT_REQUIRE("mirror", std::fabs(m + got) <= tol, m, " want ", -got);
  PBT_REQUIRE("scale", std::fabs(s - got) <= tol, s, " want ", got);
}

// the interval keeps the best point as its lower end, never grows and keeps
// falling inwards
PBT_TEST(interval_updates, 80000, 2500000)
{
  Phi p = genPhi(c);
  Tri q = genTri(c, p);
  // as in the search: u starts at l
  End l = q.l, u = c.coin(50) ? q.u : q.l;
  if (u.a != l.a && u.f < l.f && u.g * (l.a - u.a) > 0)
    u = l;  // not an interval the search would keep
  size_t k = static_cast<size_t>(c.range(1, 10));
  bool bracketed = u.a != l.a;
  size_t moved_both = 0;
  for (size_t i = 0; i < k; ++i) {
    End t;
    if (bracketed)
      t = at(p, l.a + (u.a - l.a) * c.uniform(0.01, 0.99));
    else
      t = at(p, l.a + (l.g < 0 ? 1 : -1) * c.logreal(0.01, 2));
    End l0 = l, u0 = u;
    c.note("l ", str(l), " u ", str(u), " t ", str(t));
    bool done = updateIntervalMT(l.a, l.f, l.g, u.a, u.f, u.g, t.a, t.f, t.g);
    auto is = [](const End& a, const End& b) { return a.a == b.a && a.f == b.f && a.g == b.g; };
    if (t.f > l0.f) {
      PBT_REQUIRE("higher-trial-bounds", !done && is(l, l0) && is(u, t), "l ", str(l), " u ", str(u));
    } else if (t.g * (l0.a - t.a) > 0) {
      PBT_REQUIRE("falling-trial-advances", !done && is(l, t) && is(u, u0), "l ", str(l), " u ", str(u));
    } else if (t.g * (l0.a - t.a) < 0) {
      PBT_REQUIRE("rising-trial-reverses", !done && is(l, t) && is(u, l0), "l ", str(l), " u ", str(u));
      ++moved_both;
    } else {
      PBT_REQUIRE("converged", done && is(l, l0) && is(u, u0), "l ", str(l), " u ", str(u));
      return;
    }
    PBT_REQUIRE("best-point-kept", l.f <= l0.f, l.f, " was ", l0.f);
    if (bracketed)
      PBT_REQUIRE("interval-shrinks", std::fabs(u.a - l.a) <= std::fabs(u0.a - l0.a) * (1 + 1e-12), "");
    if (u.a != l.a && !(bracketed == false && is(u, u0)))
      bracketed = true;
    if (bracketed && u.a != l.a)
      PBT_REQUIRE("falls-inwards", l.g * (u.a - l.a) <= 0, "l ", str(l), " u ", str(u));
    if (!bracketed)
      u = l;  // the search has not found a bound yet
  }
  c.nontrivial(k >= 3 && moved_both > 0);
}

PBT_TEST(auxiliary_function, 40000, 1000000)
{
  Phi p = genPhi(c);
  double x = c.real(-3, 3), mu = c.coin(50) ? 1e-4 : c.real(0, 0.5);
  double f0 = p.f(0), g0 = p.g(0);
  double v = auxilaryFunction_PsiMT(x, p.f(x), f0, g0, mu), d = auxilaryFunction_dPsiMT(p.g(x), g0, mu);
  c.nontrivial(mu != 1e-4 && x != 0);
  c.note("x ", x, " mu ", mu);
  PBT_REQUIRE("zero-at-start", auxilaryFunction_PsiMT(0, f0, f0, g0, mu) == 0, "");
  // non-positive exactly when the decrease is sufficient
  double line = f0 + mu * g0 * x;
  PBT_REQUIRE("sufficient-decrease", std::fabs(v - (p.f(x) - line)) <= 1e-12 * (1 + std::fabs(p.f(x)) + std::fabs(f0)), v);
  double h = 1e-5;
  double num = (auxilaryFunction_PsiMT(x + h, p.f(x + h), f0, g0, mu) - auxilaryFunction_PsiMT(x - h, p.f(x - h), f0, g0, mu)) / (2 * h);
  PBT_REQUIRE("slope", std::fabs(num - d) <= 1e-4 * (1 + std::fabs(d)), d, " numerically ", num);
  if (mu == 1e-4)
    PBT_REQUIRE("default", auxilaryFunction_PsiMT(x, p.f(x), f0, g0) == v && auxilaryFunction_dPsiMT(p.g(x), g0) == d, "");
}
PBT_MAIN()

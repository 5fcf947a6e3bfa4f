#include "pbt.hpp"
#include "mythical/charge_transport/marcus.hpp"
using namespace pbt;
using mythical::charge_transport::Marcus;
PROPERTY("C08",
  "Generated reorganisation energies 0.001..10 eV, temperatures 1..10000 K, energies within +-10 eV and couplings 1e-9..10 eV of either sign; "
  "non-trivial = energies differ and the rate is a normal number (not underflowed).",
  {"constants CODATA: kB 8.617333262e-5 eV/K, hbar 6.582119569e-16 eV s; compared to 1e-6 relative"})
static const double kB = 8.617333262e-5, hbar = 6.582119569e-16, pi = 3.14159265358979323846;
struct In { double lam, T, Ei, Ej, H; };
static In gen(Src& g) {
  In r;
  r.lam = g.flip() ? g.logreal(-3, 1) : (double)g.in(1, 30) / 20.0;
  r.T = g.flip() ? g.logreal(0, 4) : (double)g.in(50, 500);
  r.Ei = g.chance(1, 6) ? 0.0 : g.flip() ? g.real(-10, 10) : g.real(-0.3, 0.3);
  switch (g.below(4)) {
    case 0: r.Ej = r.Ei - r.lam * g.real(0, 2); break;
    case 1: r.Ej = r.Ei + g.real(-0.3, 0.3); break;
    case 2: r.Ej = g.real(-10, 10); break;
    default: r.Ej = r.Ei + g.real(-1, 1) * std::sqrt(r.lam * kB * r.T) * 8 - r.lam;
  }
  r.H = (g.flip() ? 1 : -1) * g.logreal(-9, 1);
  return r;
}
static void show(Ctx& c, const In& x) { c.d << "lambda " << x.lam << " T " << x.T << " Ei " << x.Ei << " Ej " << x.Ej << " H " << x.H; }
// natural log of the expected rate
static double logk(const In& x) {
  double e = x.lam + x.Ej - x.Ei;
  return std::log(2 * pi / hbar) + 2 * std::log(std::fabs(x.H)) - 0.5 * std::log(4 * pi * x.lam * kB * x.T) - e * e / (4 * x.lam * kB * x.T);
}
static double expo(const In& x) { double e = x.lam + x.Ej - x.Ei; return e * e / (4 * x.lam * kB * x.T); }
SUB(formula, 2400000, 19200000) {
  In x = gen(g); show(c, x);
  Marcus m(x.lam, x.T); double k = m.getRate(x.Ei, x.Ej, x.H), w = logk(x);
  REQUIRE(!std::isnan(k) && k >= 0, "rate is " << k);
  if (w > -600) {
    c.nontrivial(x.Ei != x.Ej);
    REQUIRE(k > 0 && std::fabs(std::log(k) - w) < 1e-6 + 1e-8 * expo(x), "rate " << k << " expected " << std::exp(w));
  } else { c.label("underflow"); REQUIRE(k < 1e-250, "rate " << k << " expected below 1e-250"); }
}
SUB(relations, 1800000, 14400000) {
  In x = gen(g); show(c, x); Marcus m(x.lam, x.T);
  double f = m.getRate(x.Ei, x.Ej, x.H), b = m.getRate(x.Ej, x.Ei, x.H);
  In y = x; std::swap(y.Ei, y.Ej);
  if (logk(x) > -600 && logk(y) > -600) {
    double l = std::log(f) - std::log(b), w = -(x.Ej - x.Ei) / (kB * x.T);
    REQUIRE(std::fabs(l - w) < 1e-6 + 1e-8 * (std::fabs(w) + expo(x) + expo(y)), "detailed balance: log ratio " << l << " expected " << w);
    c.nontrivial(x.Ei != x.Ej); c.label("detailed balance");
  }
  double s = g.logreal(-2, 2); double f2 = m.getRate(x.Ei, x.Ej, x.H * s);
  if (logk(x) > -600 && f2 > 1e-290) REQUIRE(near(f2, f * s * s, 1e-9), "coupling times " << s << " scales the rate by " << f2 / f);
  REQUIRE(m.getRate(x.Ei, x.Ej, -x.H) == f, "sign of the coupling matters");
  REQUIRE(m.getRate(x.Ei, x.Ej, 0.0) == 0.0, "no coupling must give no rate");
  double sh = g.real(-3, 3); double f3 = m.getRate(x.Ei + sh, x.Ej + sh, x.H);
  if (logk(x) > -600) REQUIRE(std::fabs(std::log(f3) - std::log(f)) < 1e-6 + 1e-8 * expo(x), "rate changes under a common shift of energies: " << f << " -> " << f3);
  double top = m.getRate(x.Ei, x.Ei - x.lam, x.H);
  REQUIRE(f <= top * (1 + 1e-9), "rate " << f << " above the activationless rate " << top);
}

// P12: interpolation end values, monotonicity, passing through the points
#include "h.h"
#include <Tools/include/Tools.h>
using namespace H; using namespace haptics::tools; using haptics::types::CurveType;
static auto fmt(const std::vector<std::pair<int, double>> &p) -> std::string { std::ostringstream o; o.precision(12); for (auto &x : p) o << "(" << x.first << "," << x.second << ")"; return o.str(); }
static auto eq(double a, double b, double t = 1e-9) -> bool { return std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }
static void linear() {
  int t0 = (int)ri(-50, 50), t1 = t0 + (int)ri(1, chance(.5) ? 3 : 1000); double f0 = rd(-2, 2), f1 = chance(.2) ? f0 : rd(-2, 2); std::ostringstream w; w << "linear " << fmt({{t0, f0}, {t1, f1}}); at("linear", w.str());
  std::pair<int, double> a{t0, f0}, b{t1, f1};
  CHECK(eq(linearInterpolation(a, b, t0), f0) && eq(linearInterpolation(a, b, t1), f1), "linear:ends", w.str());
  CHECK(linearInterpolation(a, b, t0 - rd(0.001, 9)) == f0 && linearInterpolation(a, b, t1 + rd(0.001, 9)) == f1, "linear:outside", w.str());
  double pv = f0; int n = 20; for (int i = 0; i <= n; i++) { double x = t0 + (t1 - t0) * (double)i / n; double y = linearInterpolation(a, b, x); double tol = 1e-9; CHECK(f0 <= f1 ? (y >= pv - tol && y <= f1 + tol) : (y <= pv + tol && y >= f1 - tol), "linear:monotone", w.str() << " at " << x << " got " << y); CHECK(eq(y, f0 + (f1 - f0) * (x - t0) / (t1 - t0)), "linear:line", w.str() << " at " << x << " got " << y); pv = y; }
  double p = rd(-2, 2), q = rd(-2, 2), s = rd(-3, 3), e = s + (chance(.5) ? 1 : -1) * rd(.1, 3); double x = rd(s, e); CHECK(eq(genericNormalization(s, e, p, q, s), p) && eq(genericNormalization(s, e, p, q, e), q) && eq(genericNormalization(s, e, p, q, x), p + (q - p) * (x - s) / (e - s)), "normalise", s << " " << e << " " << p << " " << q << " " << x);
  CHECK(eq(chirpInterpolation(t0, t1, p, q, t0), p) && eq(chirpInterpolation(t0, t1, p, q, t1), (p + q) / 2) && eq(chirpInterpolation(t1, t0, q, p, t1), (p + q) / 2) && chirpInterpolation(t0, t0, p, q, x) == q, "chirp", w.str() << " f " << p << " " << q);
  int k = (int)ri(0, 70000); bool pw = k != 0; for (int z = k; z > 1; z /= 2) if (z % 2) pw = false; CHECK(isPowerOfTwo(k) == pw, "pow2", k); CHECK(isPowerOfTwo(1 << ri(0, 30)), "pow2", "1<<n");
  cases++;
}
static void curves() {
  std::vector<std::pair<int, double>> p; int n = (int)ri(2, 7); int t = 0; int gap = chance(.3) ? (int)ri(1, 600) : (int)ri(1, 40); for (int i = 0; i < n; i++) { p.push_back({t, chance(.2) && i ? p.back().second : rd(-1, 1)}); t += (int)ri(1, gap); }
  std::string w = fmt(p); int last = p.back().first;
  auto through = [&](const char *nm, const std::vector<double> &y, double tol, bool between) {
    CHECK((int)y.size() == last + 1, std::string(nm) + ":length", w << " length " << y.size());
    if ((int)y.size() != last + 1) return;
    for (auto &q : p) CHECK(eq(y[q.first], q.second, tol), std::string(nm) + ":through", w << " at " << q.first << " got " << y[q.first]);
    if (between) for (int i = 0; i + 1 < n; i++) { double pv = p[i].second, e = p[i + 1].second; bool up = e >= pv; for (int j = p[i].first; j <= p[i + 1].first; j++) { CHECK(up ? (y[j] >= pv - 1e-9 && y[j] <= e + 1e-9) : (y[j] <= pv + 1e-9 && y[j] >= e - 1e-9), std::string(nm) + ":between", w << " at " << j << " got " << y[j]); pv = y[j]; } }
  };
  at("linear2", w); auto l = linearInterpolation2(p); through("linear2", l, 1e-9, true);
  if ((int)l.size() == last + 1) for (int i = 0; i + 1 < n; i++) for (int j = p[i].first; j <= p[i + 1].first; j++) CHECK(eq(l[j], p[i].second + (p[i + 1].second - p[i].second) * (j - p[i].first) / (double)(p[i + 1].first - p[i].first)), "linear2:line", w << " at " << j);
  at("cubic2", w); through("cubic2", cubicInterpolation2(p), 1e-9, true);
  if (n >= 3) { at("akima", w); through("akima", akimaInterpolation(p), 1e-7, false); }
  at("codec", w); auto d = interpolationCodec(p, CurveType::Linear); CHECK(d == l, "codec:linear", w);
  CHECK(interpolationCodec(p, CurveType::Cubic) == cubicInterpolation2(p), "codec:cubic", w);
  at("cubic", w); through("cubic", cubicInterpolation(p), 1e-6, false);
  if (n >= 3 && n % 2 == 1) { at("bezier", w); auto y = bezierInterpolation(p); CHECK(y.size() > 0 && eq(y[0], p[0].second, 1e-6) && eq(y.back(), p.back().second, 1e-6), "bezier:ends", w); }
  cases++;
}
int main(int c, char **v) { init(c, v); while (more()) { for (int i = 0; i < 20; i++) linear(); curves(); } return finish(); }

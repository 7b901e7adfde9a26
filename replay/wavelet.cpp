// P11: random blocks transformed and transformed back
#include "h.h"
#include <FilterBank/include/Wavelet.h>
using haptics::filterbank::Wavelet;
using V = std::vector<double>;
static std::string s(const V &v) { std::ostringstream o; o.precision(17); o << v.size() << " samples:"; for (size_t i = 0; i < v.size() && i < 40; i++) o << ' ' << v[i]; return o.str(); }
static double ext(const V &v, long x) { long n = (long)v.size(); return v[(size_t)(x < 0 ? -x : x >= n ? 2 * n - 2 - x : x)]; }
int main(int argc, char **argv) {
  H::init(argc, argv);
  while (H::more()) {
    H::cases++;
    int p = (int)H::ri(3, H::chance(.03) ? 13 : 10); size_t n = (size_t)1 << p;
    int levels = (int)H::ri(0, p - 2);
    double scale = H::pick<double>({1, 1, 1e-9, 1e-3, 255, 1e6}); int kind = (int)H::ri(0, 6);
    V x(n);
    size_t spot = (size_t)H::ri(0, (long)n - 1); if (H::chance(.3)) spot = H::chance(.5) ? (size_t)H::ri(0, 3) : n - 1 - (size_t)H::ri(0, 3);
    double f = H::rd(0, 4);
    for (size_t i = 0; i < n; i++) {
      double v = 0;
      if (kind == 0) v = H::rd(-1, 1); else if (kind == 1) v = i == spot; else if (kind == 2) v = 1; else if (kind == 3) v = std::sin(f * (double)i); else if (kind == 4) v = i < spot ? 1 : -1; else if (kind == 5) v = (double)i / (double)n; else v = H::chance(.1) ? H::rd(-1, 1) : 0;
      x[i] = v * scale;
    }
    H::at("wavelet", std::to_string(levels) + " levels, " + s(x));
    Wavelet w; V in = x, mid, out(n, H::chance(.5) ? 0. : 7e7);
    if (H::chance(.3)) { mid.assign((size_t)H::ri(0, 30), 5.); }   // whatever the buffer held before
    w.DWT(in, levels, mid);
    CHECK(in == x, "input", "the forward transform changed its input");
    CHECK(mid.size() == n, "length", "the transform of " << n << " samples has " << mid.size());
    if (levels == 0) { if (H::chance(.5)) mid = x; else mid.assign(n, 0.); if (mid != x) continue; }
    V m2 = mid;
    if (H::chance(.4)) w = Wavelet();
    w.inv_DWT(mid, levels, out);
    double err = 0, mx = 0; size_t at = 0;
    for (size_t i = 0; i < n; i++) { mx = std::max(mx, std::fabs(x[i])); if (!(std::fabs(out[i] - x[i]) <= err)) { err = std::fabs(out[i] - x[i]); at = i; } }
    CHECK(out.size() == n && err <= 1e-9 * mx, "inverse", levels << " levels: sample " << at << " is " << (at < out.size() ? out[at] : 0) << " instead of " << x[at] << "; block of " << s(x));
    CHECK(mid == m2, "coefficients", "the inverse changed the coefficients it was given");
    // quantised coefficients, many of them exactly zero
    if (levels > 0 && H::chance(.5)) {
      V c(n, 0.), y(n, H::chance(.5) ? 0. : 3.), back; int k = (int)H::ri(0, 5); for (int i = 0; i < k; i++) c[(size_t)H::ri(0, (long)(H::chance(.5) ? n : n >> levels) - 1)] = (double)H::ri(-7, 7) * scale;
      V c2 = c; w.inv_DWT(c, levels, y); w.DWT(y, levels, back);
      double e2 = 0; size_t a2 = 0; for (size_t i = 0; i < n; i++) if (!(std::fabs(back[i] - c2[i]) <= e2)) { e2 = std::fabs(back[i] - c2[i]); a2 = i; }
      CHECK(e2 <= 1e-9 * 7 * scale * 20, "synthesis", levels << " levels: coefficient " << a2 << " is " << back[a2] << " instead of " << c2[a2] << " after synthesis and analysis of " << s(c2));
    }
    // one filtering against the symmetric extension
    if (H::chance(.3)) {
      std::array<double, 7> h; for (auto &k : h) k = H::rd(-1, 1);
      V o(n + (size_t)H::ri(0, 3), 3.), a = o; Wavelet::symconv1D<7>(in, h, o); Wavelet::symconv1DAdd<7>(in, h, a);
      for (size_t i = 0; i < n; i++) { double t = 0; for (int k = 0; k < 7; k++) t += h[(size_t)k] * ext(x, (long)i + 3 - k); CHECK(std::fabs(o[i] - t) <= 1e-9 * mx && std::fabs(a[i] - 3. - t) <= 1e-9 * (mx + 1), "filter", "sample " << i << " of the filtered block is " << o[i] << " / " << a[i] << " instead of " << t << "; " << s(x)); }
      for (size_t i = n; i < o.size(); i++) CHECK(o[i] == 3. && a[i] == 3., "past", "filtering wrote past the block");
    }
  }
  return H::finish();
}

// P10: arithmetic coder and SPIHT block coder, there and back
#include "h.h"
#include <Spiht/include/ArithDec.h>
#include <Spiht/include/ArithEnc.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
using namespace haptics::spiht;
using B = std::vector<unsigned char>;
template <class V> static std::string s(const V &v, size_t max = 300) { std::ostringstream o; o << v.size() << ":"; for (size_t i = 0; i < v.size() && i < max; i++) o << (sizeof(v[0]) == 1 && i ? "" : " ") << (int)v[i]; return o.str(); }
static void arith(ArithEnc &enc, ArithDec &dec, bool fresh) {
  int n = (int)(H::chance(.3) ? H::ri(0, 12) : H::chance(.03) ? H::ri(2000, 9000) : H::ri(0, 600));
  B in((size_t)n); std::vector<int> ctx((size_t)n); double p = H::pick<double>({0, .01, .1, .5, .9, .99, 1}); int nc = (int)H::ri(1, 7); int run = 0; bool v = false;
  bool osc = H::chance(.2);
  for (int i = 0; i < n; i++) {
    if (H::chance(.01)) p = H::pick<double>({0, .01, .5, 1});
    if (osc) { if (run-- <= 0) { run = (int)H::ri(0, 30); v = !v; } in[(size_t)i] = v ? (i % 2) : v; } else in[(size_t)i] = H::chance(p);
    ctx[(size_t)i] = (int)H::ri(0, nc - 1); }
  H::at("arith", s(in) + " contexts " + s(ctx));
  B in0 = in, out; std::vector<int> c0 = ctx;
  if (fresh) { enc = ArithEnc(); dec = ArithDec(); }
  auto k = dec.counter; auto kt = dec.counter_total; enc.counter = k; enc.counter_total = kt;   // both sides start from the same statistics
  enc.encode(in, ctx, out);
  CHECK(in == in0 && ctx == c0, "arith-in", "the encoder changed its input");
  for (auto b : out) CHECK(b <= 1, "arith-bits", "output holds " << (int)b);
  B padded = out; if (H::chance(.3)) padded.resize(out.size() + (size_t)H::ri(0, 20), 0); // byte padding
  dec.initDecoding(padded);
  for (int i = 0; i < n; i++) { int r = dec.decode(ctx[(size_t)i]); if (r != in[(size_t)i]) { H::fail("arith", "symbol " + std::to_string(i) + " decoded as " + std::to_string(r) + "; symbols " + s(in) + " contexts " + s(ctx)); return; } }
  if (H::chance(.5)) { enc.resetCounter(); dec.resetCounter(); } else { dec.rescaleCounter(); }
  CHECK(enc.counter == dec.counter && enc.counter_total == dec.counter_total, "statistics", "coder and decoder statistics differ after " << s(in));
}
static void block(Spiht_Enc &enc, Spiht_Dec &dec) {
  int p = (int)H::ri(3, H::chance(.1) ? 11 : 8); size_t n = (size_t)1 << p; int bits = (int)(H::chance(.4) ? H::ri(1, 4) : H::ri(1, 15));
  long lim = (1L << (bits + 1)) - 1; if (H::chance(.5)) lim = (1L << bits);
  std::vector<int> x(n, 0); int kind = (int)H::ri(0, 5); double d = H::pick<double>({.01, .1, .5, 1});
  for (size_t i = 0; i < n; i++) { if (!H::chance(d)) continue; long a = kind == 0 ? lim : kind == 1 ? H::ri(0, lim) : kind == 2 ? 1 : kind == 3 ? (long)((double)lim / (1 + (double)i)) : kind == 4 ? (1L << H::ri(0, bits)) : H::ri(0, std::min(lim, 3L)); a = std::min(a, lim); x[i] = (int)(H::chance(.5) ? a : -a); }
  if (H::chance(.2)) { std::fill(x.begin(), x.end(), 0); x[(size_t)H::ri(0, (long)n - 1)] = (int)(H::chance(.5) ? lim : -1); }
  double scalar; int sm = 0, frac; bool mode = H::chance(.5);
  if (mode) { sm = (int)H::ri(0, 127); frac = FRACTIONBITS_1; scalar = 1 + (double)sm / std::pow(2, frac); } else { sm = (int)H::ri(0, 127); frac = FRACTIONBITS_0; scalar = (double)sm / std::pow(2, frac); }
  H::at("block", std::to_string(bits) + " bits, " + s(x));
  auto x0 = x; B out;
  enc.encodeEffect(x, bits, scalar, out);
  CHECK(x == x0, "block-in", "the encoder changed its block");
  if (H::chance(.2)) out.resize(out.size() + (size_t)H::ri(1, 3), 0);
  bool zero = std::all_of(x.begin(), x.end(), [](int v) { return v == 0; });
  std::vector<int> y(n, 0); double w = -1; int rb = -1; auto o = out;
  dec.decodeEffect(o, y, (int)n, w, rb);
  CHECK(o == out, "bytes", "the decoder changed its input");
  CHECK(y == x, "block", "bits " << bits << " block " << s(x) << " decoded as " << s(y));
  if (!zero) { CHECK(rb == bits, "bits", "depth " << bits << " read as " << rb); CHECK(std::fabs(w - scalar) < 1e-12, "maximum", "scale " << scalar << " read as " << w); }
  if (H::chance(.3) && !zero) {  // without the byte layer, other starting level
    int level = (int)H::ri(1, p - 2); B st, ar, wm; std::vector<int> ctx; Spiht_Enc::maximumWaveletCoefficient(scalar, wm); enc.encode(x, level, wm, bits, st, ctx);
    CHECK(st.size() == ctx.size(), "contexts", st.size() << " bits, " << ctx.size() << " contexts");
    ArithEnc ae; ae.encode(st, ctx, ar); std::vector<int> z(n, 0); dec.decode(ar, z, (int)n, level, w, rb); CHECK(z == x && rb == bits, "block-level", "level " << level << " block " << s(x) << " decoded as " << s(z)); }
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  ArithEnc ae; ArithDec ad; Spiht_Enc se; Spiht_Dec sd;
  while (H::more()) { H::cases++; if (H::chance(.5)) arith(ae, ad, H::chance(.3)); else { if (H::chance(.2)) { se = Spiht_Enc(); sd = Spiht_Dec(); } block(se, sd); } }
  return H::finish();
}

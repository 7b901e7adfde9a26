// P13: evaluation of effects, bands and channels against an independent reading of the format
#include "gen.h"
#include <Tools/include/Tools.h>
using namespace haptics::types;
static const double PI = M_PI;
static auto base(BaseSignal b, double x) -> double { // x: phase in turns
  switch (b) {
  case BaseSignal::Sine: return std::sin(2 * PI * x);
  case BaseSignal::Square: return 1 - 2 * std::round(x - std::floor(x));
  case BaseSignal::Triangle: return 1 - 4 * std::abs(std::round(x - .25) - (x - .25));
  case BaseSignal::SawToothUp: return 2 * (x - std::floor(x + .5));
  default: return 2 * (std::floor(x + .5) - x);
  }
}
static auto endOf(const Effect &e, BandType t, double dur) -> double {
  double last = -1; for (auto &k : e.keyframes) if (k.relativePosition) last = *k.relativePosition;
  if (last < 0 || t == BandType::WaveletWave) return e.position;
  return e.position + last + (t == BandType::Transient ? dur : 0);
}
// a keyframe list in strictly increasing order
static auto kfs(BandType t, int n, int maxgap, bool holes) -> std::vector<Keyframe> {
  std::vector<Keyframe> v; int p = H::chance(.6) ? 0 : (int)H::ri(0, 60);
  for (int i = 0; i < n; i++) {
    Keyframe k; k.relativePosition = p; p += (int)H::ri(1, maxgap);
    if (!holes || H::chance(.7)) k.amplitudeModulation = (float)H::rd(-1, 1);
    if (t == BandType::VectorialWave && (!holes || H::chance(.7))) k.frequencyModulation = (int)H::ri(1, 300);
    v.push_back(k);
  }
  return v;
}
// vectorial value: amplitude interpolated, phase summed over the sweeps before
static auto vectorial(const Effect &e, double t, double ts, int limit) -> double {
  if (e.keyframes.empty() || t < e.position || t > endOf(e, BandType::VectorialWave, 0)) return 0;
  double r = t - e.position, amp = 1; const Keyframe *a = nullptr, *b = nullptr;
  for (auto &k : e.keyframes) if (k.amplitudeModulation) { if (*k.relativePosition < r) a = &k; else { b = &k; break; } }
  if (a && b) amp = *a->amplitudeModulation + (*b->amplitudeModulation - *a->amplitudeModulation) * (r - *a->relativePosition) / (*b->relativePosition - *a->relativePosition);
  else if (a || b) amp = *(a ? a : b)->amplitudeModulation;
  const Keyframe *p = nullptr, *q = nullptr; double ph = e.phase.value_or(0), f = 0, u = r;
  for (auto &k : e.keyframes) if (k.frequencyModulation) {
    if (*k.relativePosition >= r) { q = &k; break; }
    ph += p ? PI * (*k.relativePosition - *p->relativePosition) / ts * (*p->frequencyModulation + *k.frequencyModulation) : 2 * PI * *k.relativePosition / ts * *k.frequencyModulation;
    p = &k;
  }
  if (q && p) { u = r - *p->relativePosition; f = *p->frequencyModulation + (*q->frequencyModulation - *p->frequencyModulation) * u / (2. * (*q->relativePosition - *p->relativePosition)); f = std::clamp(f, 0., (double)limit); }
  else if (q) f = *q->frequencyModulation;
  else if (p) { f = *p->frequencyModulation; u = r - *p->relativePosition; }
  double x = f != 0 ? f * u / ts + ph / (2 * PI) : 0;
  return amp * base(e.baseSignal.value_or(BaseSignal::Sine), x);
}
static auto curve(const Effect &e, double t) -> double {
  double r = t - e.position; const Keyframe *a = nullptr, *b = nullptr;
  for (auto &k : e.keyframes) if (k.amplitudeModulation) { if (*k.relativePosition <= r) a = &k; else { b = &k; break; } }
  if (!b) return 0; if (!a) return *b->amplitudeModulation;
  return *a->amplitudeModulation + (*b->amplitudeModulation - *a->amplitudeModulation) * (r - *a->relativePosition) / (*b->relativePosition - *a->relativePosition);
}
static auto transient(const Effect &e, double t, double dur) -> double {
  double r = t - e.position, s = 0;
  for (auto &k : e.keyframes) if (k.relativePosition && *k.relativePosition <= r && r <= *k.relativePosition + dur && k.amplitudeModulation) s += *k.amplitudeModulation * std::sin(4 * PI * (r - *k.relativePosition) / dur);
  return s;
}
static auto value(const Band &b, const Effect &e, double t, double ts) -> double {
  double dur = 22 * ts / 1000;
  if (t < e.position) return 0;
  switch (b.bandType) {
  case BandType::VectorialWave: return vectorial(e, t, ts, b.upperFrequencyLimit);
  case BandType::Curve: return curve(e, t);
  case BandType::Transient: return t <= endOf(e, BandType::Transient, dur) ? transient(e, t, dur) : 0;
  default: { double i = std::floor((t - e.position) * b.upperFrequencyLimit / ts); return i < (double)e.waveletSamples.size() ? e.waveletSamples[(size_t)i] : 0; }
  }
}
static auto rb(BandType t, unsigned ts, bool holes, bool overlap) -> Band {
  Band b; b.bandType = t; b.lowerFrequencyLimit = 0; b.upperFrequencyLimit = (int)H::pick<int>({300, 1000, 8000}); if (t == BandType::Curve) b.curveType = CurveType::Linear;
  int n = (int)H::ri(0, 4); int pos = (int)H::ri(0, 40);
  for (int i = 0; i < n; i++) {
    Effect e; e.position = pos; e.effectType = EffectType::Basis; e.keyframes = kfs(t, (int)H::ri(t == BandType::Curve ? 1 : 0, 5), t == BandType::Transient ? (int)(22 * ts / 1000) * 2 + 2 : 60, holes);
    if (t == BandType::VectorialWave) { if (H::chance(.5)) e.phase = (float)H::rd(0, 6); if (H::chance(.7)) e.baseSignal = (BaseSignal)H::ri(0, 4); if (H::chance(.5)) { int f = (int)H::ri(0, 200); for (auto &k : e.keyframes) if (k.frequencyModulation) k.frequencyModulation = f; } }
    if (t == BandType::WaveletWave) { e.keyframes.clear(); int m = (int)H::ri(0, 16); for (int j = 0; j < m; j++) e.waveletSamples.push_back(H::rd(-1, 1)); }
    double end = endOf(e, t, 22. * ts / 1000); if (t == BandType::WaveletWave) end = e.position + (double)e.waveletSamples.size() * ts / b.upperFrequencyLimit;
    b.effects.push_back(e);
    pos = overlap ? pos + (int)H::ri(0, 60) : (int)std::ceil(end) + (int)H::ri(1, 60);
  }
  return b;
}
static auto disc(const Band &b) -> bool { for (auto &e : b.effects) if (e.baseSignal && *e.baseSignal != BaseSignal::Sine && *e.baseSignal != BaseSignal::Triangle) return true; return b.bandType == BandType::WaveletWave; }
int main(int argc, char **argv) {
  H::init(argc, argv);
  while (H::more()) {
    H::cases++;
    unsigned ts = H::pick<unsigned>({1000, 1000, 500, 4000, 8000});
    double dur = 22. * ts / 1000;
    auto bt = (BandType)H::ri(0, 3);
    Band b = rb(bt, ts, H::chance(.5), false);
    H::at("evaluate", "timescale " + std::to_string(ts) + " " + G::show(b));
    double end = 0; for (auto &e : b.effects) end = std::max(end, endOf(e, bt, dur));
    { // effects that are not in time order of their ends
      Band o = rb(bt, ts, H::chance(.5), true); double oe = 0; for (auto &e : o.effects) oe = std::max(oe, endOf(e, bt, dur));
      CHECK(o.getBandTimeLength(ts) == oe, "band-length", "timescale " << ts << " " << G::show(o) << " length " << o.getBandTimeLength(ts) << " expected " << oe);
      if (bt != BandType::Curve && !disc(o)) {
        int fs = (int)H::pick<int>({100, 1000, 8000}); int pad = H::chance(.7) ? 0 : (int)H::ri(0, 20);
        uint32_t n = (uint32_t)H::ri(0, 300); auto got = o.EvaluationBand(n, fs, pad, ts);
        CHECK(got.size() == n, "sampled-size", "asked for " << n << " samples, got " << got.size());
        for (uint32_t i = 0; i < n && i < got.size(); i++) {
          double t = ts * (i / (double)fs - pad * .001), w = 0; bool edge = false; for (auto &e : o.effects) { w += value(o, e, t, ts); for (auto &k : e.keyframes) for (double x : {0., dur}) if (k.relativePosition && std::fabs(t - e.position - *k.relativePosition - x) < 1e-6) edge = true; }
          CHECK(edge || G::near(got[i], w, 1e-5), "sampled-sum", "timescale " << ts << " fs " << fs << " pad " << pad << " " << G::show(o) << " sample " << i << " is " << got[i] << " expected " << w);
        }
      }
    }
    for (int q = 0; q < 40; q++) {
      double t = H::chance(.3) ? (double)H::ri(-20, (long)end + 80) : H::rd(-20, end + 80);
      if (bt == BandType::WaveletWave && t < 0) continue;
      double w = 0; for (auto &e : b.effects) w += value(b, e, t, ts);
      double got = b.Evaluate(t, b.lowerFrequencyLimit, b.upperFrequencyLimit, ts);
      bool out = true; for (auto &e : b.effects) if (t >= e.position && t <= endOf(e, bt, dur)) out = false;
      if (bt != BandType::WaveletWave) CHECK(!out || got == 0, "silence", "timescale " << ts << " " << G::show(b) << " at " << t << " is " << got);
      if (!disc(b)) CHECK(G::near(got, w, 1e-5), "value", "timescale " << ts << " " << G::show(b) << " at " << t << " is " << got << " expected " << w);
    }
    { // sampled curves: sound between the first and the last keyframe, through the keyframes
      Band c = rb(BandType::Curve, ts, false, H::chance(.5)); int fs = (int)H::pick<int>({500, 1000, 2000, 8000}); bool lin = H::chance(.7);
      if (!lin) c.curveType = (CurveType)H::ri(0, 5);
      uint32_t n = (uint32_t)H::ri(0, 900); int pad = H::chance(.7) ? 0 : (int)H::ri(-20, 20);
      bool few = false; for (auto &e : c.effects) { for (size_t i = 1; i < e.keyframes.size(); i++) if ((*e.keyframes[i].relativePosition - *e.keyframes[i - 1].relativePosition) * fs < (int)ts) few = true; if (!lin && (c.curveType == CurveType::Akima || c.curveType == CurveType::Bezier || c.curveType == CurveType::Bspline) && e.keyframes.size() < 5) few = true; }
      if (!few) {
        H::at("curve", "timescale " + std::to_string(ts) + " fs " + std::to_string(fs) + " pad " + std::to_string(pad) + " " + G::show(c));
        auto got = c.EvaluationBand(n, fs, pad, ts); std::vector<double> want(n, 0); std::vector<char> in(n, 0), soft(n, 0);
        for (auto &e : c.effects) {
          if (e.keyframes.empty()) continue; auto smp = [&](const Keyframe &k) { return (int)((long)*k.relativePosition * fs / ts); };
          int p0 = (int)((e.position / (double)ts + pad * .001) * fs);
          for (int i = p0 + smp(e.keyframes.front()); i <= p0 + smp(e.keyframes.back()); i++) if (i >= 0 && i < (int)n) {
            in[i] = 1; size_t j = 0; while (j + 1 < e.keyframes.size() && p0 + smp(e.keyframes[j + 1]) <= i) j++;
            int a = p0 + smp(e.keyframes[j]); double v = *e.keyframes[j].amplitudeModulation;
            if (e.keyframes.size() == 1) soft[i] = 1; if (i > a) { int z = p0 + smp(e.keyframes[j + 1]); double y = *e.keyframes[j + 1].amplitudeModulation; v += (y - v) * (i - a) / (z - a); if (!lin && e.keyframes.size() != 2) soft[i] = 1; }
            else if (c.curveType == CurveType::Bezier || c.curveType == CurveType::Bspline) soft[i] = soft[i] || (!lin && e.keyframes.size() != 2);
            want[i] += v;
          }
        }
        CHECK(got.size() == n, "sampled-size", "asked for " << n << " samples, got " << got.size());
        for (uint32_t i = 0; i < n && i < got.size(); i++) {
          if (!in[i]) CHECK(got[i] == 0, "curve-silence", "timescale " << ts << " fs " << fs << " pad " << pad << " " << G::show(c) << " sample " << i << " is " << got[i]);
          else if (!soft[i]) CHECK(G::near(got[i], want[i], 1e-5), "curve-value", "timescale " << ts << " fs " << fs << " pad " << pad << " " << G::show(c) << " sample " << i << " is " << got[i] << " expected " << want[i]);
        }
      }
    }
    { // channels
      Channel ch; ch.gain = (float)H::rd(0, 2); int m = (int)H::ri(0, 3); for (int i = 0; i < m; i++) { Band x = rb((BandType)H::pick<int>({0, 1, 2}), ts, false, false); ch.bands.push_back(x); }
      double t = H::rd(0, 200), w = 0; for (auto &x : ch.bands) w += x.Evaluate(t, x.lowerFrequencyLimit, x.upperFrequencyLimit, ts);
      CHECK(ch.Evaluate(t, ts) == std::max(-1., std::min(1., w)), "channel", G::show(ch) << " at " << t << " is " << ch.Evaluate(t, ts) << " expected " << w << " clipped");
      uint32_t n = (uint32_t)H::ri(0, 60); bool few = false; for (auto &x : ch.bands) if (x.bandType == BandType::Curve) for (auto &e : x.effects) for (size_t i = 1; i < e.keyframes.size(); i++) if ((*e.keyframes[i].relativePosition - *e.keyframes[i - 1].relativePosition) * 8000 < (int)ts) few = true;
      if (!few) {
        auto got = ch.EvaluateChannel(n, 8000, 0, ts); std::vector<std::vector<double>> bs; for (auto &x : ch.bands) bs.push_back(x.EvaluationBand(n, 8000, 0, ts));
        CHECK(got.size() == n, "sampled-size", "asked for " << n << " samples, got " << got.size());
        for (uint32_t i = 0; i < n && i < got.size(); i++) { double s = 0; for (auto &x : bs) s += x[i]; CHECK(G::near(got[i], std::max(-1., std::min(1., s)), 1e-12), "sampled-channel", G::show(ch) << " sample " << i << " is " << got[i] << " expected " << s << " clipped"); }
      }
    }
  }
  return H::finish();
}

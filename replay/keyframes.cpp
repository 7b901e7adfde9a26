// P08: keyframe scripts against an ordered map
#include "gen.h"
using namespace G; using namespace H;
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    Effect e; e.id = 3; e.position = 7; e.phase = 1.5f; auto base = e; bool dup = chance(.2);
    struct P { std::optional<float> a; std::optional<int> f; };
    std::vector<std::pair<int, P>> m; std::ostringstream w;
    int n = (int)ri(1, 10);
    if (chance(.3)) { int p = (int)ri(-3, 3); int k = (int)ri(1, 5); for (int i = 0; i < k; i++) { P q; if (chance(.7)) q.a = (float)rd(-1, 1); if (chance(.5)) q.f = (int)ri(0, 9); e.addKeyframe(p, q.a ? std::optional<double>(*q.a) : std::nullopt, q.f); m.push_back({p, q}); w << "kf(" << p << ") "; p += (int)ri(1, 4); } }
    for (int i = 0; i < n; i++) {
      int p = (int)ri(-4, 8); int op = (int)ri(0, dup ? 2 : 1); std::optional<float> a; if (chance(.9)) a = (float)ri(-100, 100) / 64; std::optional<int> f; if (chance(.9)) f = (int)ri(0, 1000);
      w << (op == 0 ? "amp" : op == 1 ? "freq" : "ampkeep") << "@" << p << " "; at("kf", w.str());
      size_t k = 0; while (k < m.size() && m[k].first < p) k++; bool hit = k < m.size() && m[k].first == p; bool r;
      if (op == 0) { r = chance(.5) ? e.addAmplitudeAt(a, p) : e.addAmplitudeAt(a, p, true); if (hit) m[k].second.a = a; else m.insert(m.begin() + k, {p, P{a, {}}}); }
      else if (op == 1) { r = e.addFrequencyAt(f, p); if (hit) m[k].second.f = f; else m.insert(m.begin() + k, {p, P{{}, f}}); }
      else { r = e.addAmplitudeAt(a, p, false); m.insert(m.begin() + (hit ? k + 1 : k), {p, P{a, {}}}); }
      CHECK(r, "kf:result", w.str());
      bool ok = m.size() == e.keyframes.size();
      for (size_t j = 0; ok && j < m.size(); j++) { auto &q = e.keyframes[j]; ok = q.relativePosition == m[j].first && q.amplitudeModulation == m[j].second.a && q.frequencyModulation == m[j].second.f; }
      CHECK(ok, op == 0 ? "kf:amplitude" : op == 1 ? "kf:frequency" : "kf:amplitude-keep", w.str() << " got " << show(e));
      if (!ok) break;
    }
    auto x = e; x.keyframes.clear(); CHECK(show(x) == show(base), "kf:frame", w.str()); cases++;
  }
  return finish();
}

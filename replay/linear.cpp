// P09: inlining library references against a recursive reference implementation
#include "gen.h"
using namespace haptics::types;
static auto reff(const std::vector<int> &ids, int depth) -> Effect {
  Effect e = G::reffect(0); e.timeline.clear();
  if (H::chance(.5)) { Effect r; r.effectType = EffectType::Reference; r.position = (int)H::ri(0, 3000); r.id = ids.empty() || H::chance(.15) ? (int)H::ri(100, 140) : H::pick(ids); return r; }
  if (e.effectType == EffectType::Reference) e.effectType = EffectType::Basis;
  if (e.effectType == EffectType::Composite && depth > 0) { int n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) e.timeline.push_back(reff(ids, depth - 1)); }
  return e;
}
// the expected effect
static auto inl(Effect e, const std::vector<Effect> &lib, std::set<int> open) -> Effect {
  if (e.effectType == EffectType::Reference) {
    const Effect *f = nullptr;
    for (auto &l : lib) if (l.id == e.id) { f = &l; break; }
    if (!f || open.count(e.id)) return e;
    open.insert(e.id);
    Effect c = *f; c.position = e.position; c.id = -1; e = c;
  }
  for (auto &t : e.timeline) t = inl(t, lib, open);
  return e;
}
static auto left(const Effect &e, const std::set<int> &ids) -> bool {
  if (e.effectType == EffectType::Reference && ids.count(e.id)) return true;
  for (auto &t : e.timeline) if (left(t, ids)) return true;
  return false;
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  while (H::more()) {
    H::cases++;
    Haptics h = G::rhaptics();
    bool cyclic = H::chance(.1);
    for (auto &p : h.perceptions) {
      p.effectLibrary.clear(); int n = (int)H::ri(0, 5); std::vector<int> ids; int id = (int)H::ri(0, 3);
      std::vector<int> all; for (int i = 0, x = id; i < n; i++, x += 7) all.push_back(x);
      for (int i = 0; i < n; i++) {
        Effect e = reff(cyclic ? all : ids, 2); if (e.effectType == EffectType::Reference) { e.effectType = EffectType::Composite; e.timeline.push_back(reff(cyclic ? all : ids, 1)); }
        e.id = id; e.position = H::chance(.3) ? (int)H::ri(0, 50) : 0; ids.push_back(id); id += 7; p.effectLibrary.push_back(e);
      }
      std::shuffle(p.effectLibrary.begin(), p.effectLibrary.end(), H::rng);
      if (H::chance(.3)) p.channels.push_back(G::rchannel()); for (auto &c : p.channels) { if (H::chance(.3)) for (int k = (int)H::ri(1, 6); k > 0; k--) c.bands.push_back(G::rband()); } for (auto &c : p.channels) for (auto &b : c.bands) { b.effects.clear(); int m = (int)H::ri(0, 8); for (int k = 0; k < m; k++) b.effects.push_back(reff(ids, 3)); }
    }
    Haptics want = h;
    for (auto &p : want.perceptions) { for (auto &c : p.channels) for (auto &b : c.bands) for (auto &e : b.effects) e = inl(e, p.effectLibrary, {}); p.effectLibrary.clear(); }
    H::at("linearize", G::show(h));
    Haptics got = h;
    got.linearize();
    CHECK(G::same(got, want), "inlined", "document " << G::show(h) << " after inlining " << G::show(got) << " expected " << G::show(want));
    if (!cyclic) for (size_t i = 0; i < h.perceptions.size(); i++) {
      std::set<int> ids; for (auto &l : h.perceptions[i].effectLibrary) ids.insert(l.id);
      if (i < got.perceptions.size()) for (auto &c : got.perceptions[i].channels) for (auto &b : c.bands) for (auto &e : b.effects)
        CHECK(!left(e, ids), "reference-left", "document " << G::show(h) << " still refers to the library in " << G::show(e));
    }
  }
  return H::finish();
}

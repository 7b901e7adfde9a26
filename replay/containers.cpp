// P07: edits against a list model
#include "gen.h"
using namespace G; using namespace H;
template <class O, class T> void edits(const char *nm, O (*gen)(), std::vector<T> O::*fld, T (*elem)(), bool (O::*rep)(int, T &), bool (O::*rem)(int), T &(O::*get)(int), size_t (O::*size)(), void (O::*add)(T &)) {
  O o = gen(); auto before = o; auto &v = o.*fld; std::vector<T> model = v; int n = (int)model.size();
  int i = (int)ri(-2, n + 1); if (chance(.05)) i = pick<int>({INT32_MAX, INT32_MIN}); T x = elem(); if (n && chance(.2)) x = model[ri(0, n - 1)]; bool ok = i >= 0 && i < n; int op = (int)ri(0, 3);
  std::ostringstream w; w << nm << " op=" << (op == 0 ? "replace" : op == 1 ? "remove" : op == 2 ? "add" : "at") << " index=" << i << " size=" << n << " object=" << show(before) << " element=" << show(x); at(nm, w.str());
  if (op == 0 && rep) { bool r = (o.*rep)(i, x); if (ok) model[i] = x; CHECK(r == ok, std::string(nm) + ":result", w.str()); }
  else if (op == 1 && rem) { bool r = (o.*rem)(i); if (ok) model.erase(model.begin() + i); CHECK(r == ok, std::string(nm) + ":result", w.str()); }
  else if (op == 2 && add) { (o.*add)(x); model.push_back(x); }
  else if (get) { bool t = false; try { T &e = (o.*get)(i); if (ok) { CHECK(&e == &v[i], std::string(nm) + ":at", w.str()); } } catch (std::out_of_range &) { t = true; } CHECK(t == !ok, std::string(nm) + ":at", w.str()); }
  if (size) CHECK((o.*size)() == model.size(), std::string(nm) + ":size", w.str());
  CHECK(eqv(v, model), std::string(nm) + ":content", w.str() << " got " << show(o));
  v.clear(); (before.*fld).clear(); CHECK(show(o) == show(before), std::string(nm) + ":frame", w.str()); cases++;
}
static auto gb() -> Band { Band b = rband(); return b; }
static auto ge() -> Effect { return reffect(); }
static void ordered() {
  Band b; b.bandType = BandType::Curve; std::vector<Effect> model; int n = (int)ri(1, 8); std::ostringstream w; w << "addEffect order:";
  for (int i = 0; i < n; i++) { Effect e = reffect(0); e.position = (int)ri(-3, 4); e.id = chance(.5) ? i : (int)ri(-1, 2); if (i && chance(.2)) { int p0 = e.position; e = model[ri(0, i - 1)]; if (chance(.5)) e.position = p0; } w << " " << e.position; at("addEffect", w.str()); b.addEffect(e);
    size_t k = 0; while (k < model.size() && model[k].position <= e.position) k++; model.insert(model.begin() + k, e); }
  CHECK(eqv(b.effects, model), "addEffect:order", w.str() << " got " << show(b)); cases++;
}
static void metadata() {
  { Haptics h = rhaptics(), b = h; Perception p = rperception(); int n = (int)h.perceptions.size(), i = (int)ri(-1, n); bool ok = i >= 0 && i < n; std::string w = "replacePerceptionMetadataAt " + std::to_string(i) + " on " + show(h) + " with " + show(p); at("permeta", w); bool r = h.replacePerceptionMetadataAt(i, p); CHECK(r == ok, "permeta:result", w);
    if (ok) { auto &x = h.perceptions[i]; CHECK(x.id == p.id && x.avatarId == p.avatarId && x.description == p.description && x.perceptionModality == p.perceptionModality && eqv(x.referenceDevices, p.referenceDevices) && eqv(x.effectLibrary, p.effectLibrary) && x.getUnitExponentOrDefault() == p.getUnitExponentOrDefault() && x.getPerceptionUnitExponentOrDefault() == p.getPerceptionUnitExponentOrDefault() && x.getEffectSemanticSchemeOrDefault() == p.getEffectSemanticSchemeOrDefault(), "permeta:copied", w << " got " << show(x)); CHECK(eqv(x.channels, b.perceptions[i].channels), "permeta:kept", w); x = b.perceptions[i]; }
    CHECK(show(h) == show(b), "permeta:frame", w); }
  { Perception h = rperception(), b = h; Channel p = rchannel(); int n = (int)h.channels.size(), i = (int)ri(-1, n); bool ok = i >= 0 && i < n; std::string w = "replaceChannelMetadataAt " + std::to_string(i) + " on " + show(h) + " with " + show(p); at("chmeta", w); bool r = h.replaceChannelMetadataAt(i, p); CHECK(r == ok, "chmeta:result", w);
    if (ok) { Channel x = h.channels[i], y = p; y.bands = b.channels[i].bands; y.priority = b.channels[i].priority; if (!y.referenceDeviceId) y.referenceDeviceId = b.channels[i].referenceDeviceId; y.priority = x.priority; CHECK(show(x) == show(y), "chmeta:copied", w << " got " << show(x)); h.channels[i] = b.channels[i]; }
    CHECK(show(h) == show(b), "chmeta:frame", w); }
  { Channel h = rchannel(), b = h; Band p = rband(); int n = (int)h.bands.size(), i = (int)ri(-1, n); bool ok = i >= 0 && i < n; std::string w = "replaceBandMetadataAt " + std::to_string(i) + " on " + show(h) + " with " + show(p); at("bandmeta", w); bool r = h.replaceBandMetadataAt(i, p); CHECK(r == ok, "bandmeta:result", w);
    if (ok) { Band &x = h.bands[i]; CHECK(x.bandType == p.bandType && x.lowerFrequencyLimit == p.lowerFrequencyLimit && x.upperFrequencyLimit == p.upperFrequencyLimit && (p.bandType != BandType::Curve || x.getCurveTypeOrDefault() == p.getCurveTypeOrDefault()) && (p.bandType != BandType::WaveletWave || x.getBlockLengthOrDefault() == p.getBlockLengthOrDefault()) && eqv(x.effects, b.bands[i].effects), "bandmeta:copied", w << " got " << show(x)); h.bands[i] = b.bands[i]; }
    CHECK(show(h) == show(b), "bandmeta:frame", w); }
  cases += 3;
}

template <class O> struct Sz { };
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    edits<Haptics, Perception>("Haptics.perceptions", rhaptics, &Haptics::perceptions, rperception, &Haptics::replacePerceptionAt, &Haptics::removePerceptionAt, &Haptics::getPerceptionAt, nullptr, &Haptics::addPerception);
    edits<Haptics, Avatar>("Haptics.avatars", rhaptics, &Haptics::avatars, ravatar, nullptr, nullptr, nullptr, nullptr, &Haptics::addAvatar);
    edits<Perception, Channel>("Perception.channels", rperception, &Perception::channels, rchannel, &Perception::replaceChannelAt, &Perception::removeChannelAt, &Perception::getChannelAt, &Perception::getChannelsSize, &Perception::addChannel);
    edits<Perception, Effect>("Perception.library", rperception, &Perception::effectLibrary, ge, nullptr, nullptr, &Perception::getBasisEffectAt, &Perception::getEffectLibrarySize, &Perception::addBasisEffect);
    edits<Perception, ReferenceDevice>("Perception.devices", rperception, &Perception::referenceDevices, rdevice, nullptr, nullptr, &Perception::getReferenceDeviceAt, &Perception::getReferenceDevicesSize, &Perception::addReferenceDevice);
    edits<Channel, Band>("Channel.bands", rchannel, &Channel::bands, gb, &Channel::replaceBandAt, &Channel::removeBandAt, &Channel::getBandAt, &Channel::getBandsSize, &Channel::addBand);
    edits<Band, Effect>("Band.effects", gb, &Band::effects, ge, &Band::replaceEffectAt, &Band::removeEffectAt, &Band::getEffectAt, &Band::getEffectsSize, nullptr);
    edits<Effect, Keyframe>("Effect.keyframes", ge, &Effect::keyframes, rkf, &Effect::replaceKeyframeAt, &Effect::removeKeyframeAt, &Effect::getKeyframeAt, &Effect::getKeyframesSize, &Effect::addKeyframe);
    edits<Effect, Effect>("Effect.timeline", ge, &Effect::timeline, ge, nullptr, nullptr, &Effect::getTimelineEffectAt, &Effect::getTimelineSize, &Effect::addTimelineEffect);
    for (int i = 0; i < 10; i++) ordered();
    metadata();
  }
  return finish();
}

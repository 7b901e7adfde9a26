// P01: random representable documents are saved to .hmpg, loaded and compared field by field; saving again gives the same bytes
#include "gen.h"
#include <IOHaptics/include/IOBinary.h>
using namespace haptics::io;
using namespace haptics::types;
using G::show;
static auto slurp(const std::string &p) -> std::string { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static const double STEP8 = 2.0 / 255 * 1.01, STEP32 = 6e-6, PH = 6.28318 / 65535 * 1.01;
template <class T> static auto cl(std::optional<T> a, std::optional<T> b, double tol) -> bool { return a.has_value() == b.has_value() && (!a || std::fabs((double)*a - (double)*b) <= tol + 1e-7 * std::fabs((double)*a)); }
static auto cstr(int max) -> std::string { std::string s; int n = H::chance(.02) ? max : (int)H::ri(0, 12); for (int i = 0; i < n; i++) s += (char)H::ri(H::chance(.9) ? 32 : -128, 127); return s; }
static auto kf(BandType t) -> Keyframe {
  Keyframe k;
  if (H::chance(.9) || t == BandType::VectorialWave) k.relativePosition = (int)H::ri(0, H::chance(.1) ? 65535 : 900);
  if (H::chance(.8)) k.amplitudeModulation = (float)(H::chance(.1) ? H::pick<double>({-1, 0, 1}) : H::rd(-1, 1));
  if (t != BandType::Curve && H::chance(.7)) k.frequencyModulation = (int)H::ri(0, H::chance(.1) ? 65535 : 900);
  return k;
}
static auto eff(BandType t, int pos, int depth) -> Effect {
  Effect e; e.position = pos; e.effectType = (EffectType)H::pick<int>({0, 0, 0, 1, depth ? 2 : 0});
  if (e.effectType == EffectType::Reference) { e.id = (int)H::ri(0, H::chance(.2) ? 65535 : 9); return e; }
  if (e.effectType == EffectType::Composite) { int n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) e.timeline.push_back(eff(t, (int)H::ri(0, 5000), depth - 1)); return e; }
  if (t == BandType::WaveletWave) { int n = (int)H::ri(0, H::chance(.05) ? 4000 : 20); for (int i = 0; i < n; i++) e.waveletBitstream.push_back((unsigned char)H::ri(0, 255)); return e; }
  if (t == BandType::VectorialWave) { if (H::chance(.7)) e.phase = (float)H::rd(0, 6.28); if (H::chance(.7)) e.baseSignal = (BaseSignal)H::ri(0, 4); }
  int n = (int)H::ri(0, 5); for (int i = 0; i < n; i++) e.keyframes.push_back(kf(t));
  return e;
}
static auto libeff(int depth) -> Effect {
  Effect e; e.id = (int)H::ri(0, 65535); e.position = (int)H::ri(0, (1 << 25) - 1); e.effectType = (EffectType)H::ri(0, 2);
  if (e.effectType == EffectType::Basis && H::chance(.7)) { e.phase = (float)H::rd(0, 6.28); e.baseSignal = (BaseSignal)H::ri(0, 4); }
  int n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) e.keyframes.push_back(kf(BandType::Transient));
  n = depth ? (int)H::ri(0, 2) : 0; for (int i = 0; i < n; i++) e.timeline.push_back(libeff(depth - 1));
  return e;
}
static auto band() -> Band {
  Band b; b.bandType = (BandType)H::ri(0, 3); b.lowerFrequencyLimit = (int)H::ri(0, 65535); b.upperFrequencyLimit = (int)H::ri(0, 65535);
  if (b.bandType == BandType::Curve && H::chance(.8)) b.curveType = (CurveType)H::ri(0, 5);
  bool w = b.bandType == BandType::WaveletWave;
  if (w) { int k = (int)H::ri(0, 6); int bl = 16 << k; static const std::vector<int> up = {1000, 500, 250, 125, 2000, 200, 40}; do { b.upperFrequencyLimit = H::pick(up); } while (((16 << k) * 1000) % b.upperFrequencyLimit); bl = (16 << k) * 1000 / b.upperFrequencyLimit; b.blockLength = bl; }
  int n = (int)H::ri(0, 4), pos = 0;
  for (int i = 0; i < n; i++) { Effect e = eff(b.bandType, pos, 2); if (w) { e.position = i * *b.blockLength; } b.effects.push_back(e); pos += (int)H::ri(0, H::chance(.05) ? 5000000 : 900); }
  return b;
}
static auto channel() -> Channel {
  Channel c; c.id = (int)H::ri(0, 500); c.description = cstr(255); c.gain = (float)H::rd(-9000, 9000); c.mixingWeight = (float)H::rd(0, 9000); c.bodyPartMask = (uint32_t)H::ri(0, 0xFFFFFFFFl);
  if (H::chance(.5)) c.referenceDeviceId = (int)H::ri(0, 254);
  if (H::chance(.4)) { c.frequencySampling = (uint32_t)H::ri(1, 0xFFFFFFFFl); c.sampleCount = (uint32_t)H::ri(0, 0xFFFFFFFFl); }
  if (H::chance(.4)) c.direction = G::rvec();
  if (H::chance(.4)) { c.bodyPartMask = 0; c.actuatorResolution = G::rvec(); std::vector<BodyPartTarget> t; int m = (int)H::ri(0, 3); for (int i = 0; i < m; i++) t.push_back((BodyPartTarget)H::pick<int>({0, 1, 10, 11, 12, 13, 14, 15, 20, 21})); c.bodyPartTarget = t; std::vector<Vector> u; m = (int)H::ri(0, 3); for (int i = 0; i < m; i++) u.push_back(G::rvec()); c.actuatorTarget = u; }
  int n = (int)H::ri(0, 4); for (int i = 0; i < n; i++) c.vertices.push_back((int)H::ri(0, 0x7FFFFFFF));
  n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) c.bands.push_back(band());
  return c;
}
static auto device() -> ReferenceDevice {
  ReferenceDevice d; d.id = (int)H::ri(0, 255); d.name = cstr(255); d.bodyPartMask = (uint32_t)H::ri(0, 0xFFFFFFFFl);
  auto f = [&](std::optional<float> &x) { if (H::chance(.5)) x = (float)H::rd(0, 9999); };
  f(d.maximumFrequency); f(d.minimumFrequency); f(d.resonanceFrequency); f(d.maximumAmplitude); f(d.impedance); f(d.maximumVoltage); f(d.maximumCurrent); f(d.maximumDisplacement); f(d.weight); f(d.size); f(d.custom);
  if (H::chance(.3)) d.custom = (float)H::rd(-9999, 0);
  if (H::chance(.5)) d.type = (ActuatorType)H::ri(0, 4);
  return d;
}
static auto doc() -> Haptics {
  Haptics h; h.version = cstr(255); h.profile = cstr(255); h.level = (uint8_t)H::ri(0, 255); h.date = cstr(255); h.description = cstr(255); h.timescale = 1000;
  int n = (int)H::ri(0, 2); for (int i = 0; i < n; i++) { Avatar a; a.id = (int)H::ri(0, 255); a.lod = (int)H::ri(0, 255); a.type = (AvatarType)H::ri(0, 2); if (a.type == AvatarType::Custom) a.mesh = cstr(255); h.avatars.push_back(a); }
  n = (int)H::ri(0, 3);
  for (int i = 0; i < n; i++) {
    Perception p; p.id = (int)H::ri(0, 255); p.avatarId = (int)H::ri(0, 255); p.description = cstr(255); p.perceptionModality = (PerceptionModality)H::ri(0, 11); p.unitExponent = (int8_t)H::ri(-128, 127); p.perceptionUnitExponent = (int8_t)H::ri(-128, 127);
    int m = (int)H::ri(0, 2); for (int j = 0; j < m; j++) p.effectLibrary.push_back(libeff(2)); m = (int)H::ri(0, 2); for (int j = 0; j < m; j++) p.referenceDevices.push_back(device()); m = (int)H::ri(0, 3); for (int j = 0; j < m; j++) p.channels.push_back(channel());
    h.perceptions.push_back(p);
  }
  return h;
}
// ---- comparison
#define F(cond, what) do { if (!(cond)) return std::string(what); } while (0)
static auto cmpkf(const Keyframe &a, const Keyframe &b, BandType t, bool lib) -> std::string {
  bool dflt = !lib && t != BandType::VectorialWave;
  if (dflt) { F(b.relativePosition && *b.relativePosition == a.relativePosition.value_or(0), "keyframe position"); F(b.amplitudeModulation && std::fabs(*b.amplitudeModulation - a.amplitudeModulation.value_or(0)) <= STEP8, "keyframe amplitude"); if (t == BandType::Transient) F(b.frequencyModulation && *b.frequencyModulation == a.frequencyModulation.value_or(0), "keyframe frequency"); return ""; }
  F(a.relativePosition == b.relativePosition, "keyframe position"); F(cl(a.amplitudeModulation, b.amplitudeModulation, STEP8), "keyframe amplitude"); F(a.frequencyModulation == b.frequencyModulation, "keyframe frequency"); return "";
}
static auto cmpkfs(const Effect &a, const Effect &b, BandType t, bool lib) -> std::string { F(a.keyframes.size() == b.keyframes.size(), "number of keyframes"); for (size_t i = 0; i < a.keyframes.size(); i++) { auto s = cmpkf(a.keyframes[i], b.keyframes[i], t, lib); if (!s.empty()) return s; } return ""; }
static auto cmpeff(const Effect &a, const Effect &b, BandType t) -> std::string {
  F(a.position == b.position, "effect position"); F(a.effectType == b.effectType, "effect type");
  if (a.effectType == EffectType::Reference) { F(a.id == b.id, "reference id"); return ""; }
  F(a.timeline.size() == b.timeline.size(), "number of children"); for (size_t i = 0; i < a.timeline.size(); i++) { auto s = cmpeff(a.timeline[i], b.timeline[i], t); if (!s.empty()) return "child: " + s; }
  if (a.effectType == EffectType::Composite) return "";
  F(a.waveletBitstream == b.waveletBitstream, "wavelet bytes");
  if (t == BandType::VectorialWave) { F(b.phase && std::fabs(*b.phase - a.phase.value_or(0)) <= PH, "phase"); F(b.baseSignal && (int)*b.baseSignal == (int)a.baseSignal.value_or(BaseSignal::Sine), "base signal"); }
  return cmpkfs(a, b, t, false);
}
static auto cmplib(const Effect &a, const Effect &b) -> std::string {
  F(a.id == b.id && a.position == b.position && a.effectType == b.effectType, "library effect fields");
  if (a.effectType == EffectType::Basis) { F(b.phase && std::fabs(*b.phase - a.phase.value_or(0)) <= PH, "library effect phase"); F(b.baseSignal && (int)*b.baseSignal == (int)a.baseSignal.value_or(BaseSignal::Sine), "library effect base signal"); }
  auto s = cmpkfs(a, b, BandType::Transient, true); if (!s.empty()) return "library " + s;
  F(a.timeline.size() == b.timeline.size(), "number of library children"); for (size_t i = 0; i < a.timeline.size(); i++) { s = cmplib(a.timeline[i], b.timeline[i]); if (!s.empty()) return s; } return "";
}
static auto cmpband(const Band &a, const Band &b) -> std::string {
  F(a.bandType == b.bandType && a.lowerFrequencyLimit == b.lowerFrequencyLimit && a.upperFrequencyLimit == b.upperFrequencyLimit, "band fields");
  if (a.bandType == BandType::Curve) F(b.curveType && *b.curveType == a.curveType.value_or(CurveType::Unknown), "curve type");
  if (a.bandType == BandType::WaveletWave) F(a.blockLength == b.blockLength, "block length");
  F(a.effects.size() == b.effects.size(), "number of effects"); for (size_t i = 0; i < a.effects.size(); i++) { auto s = cmpeff(a.effects[i], b.effects[i], a.bandType); if (!s.empty()) return s; } return "";
}
static auto cmpchan(const Channel &a, const Channel &b) -> std::string {
  F(a.id == b.id && a.description == b.description, "channel id/description"); F(a.referenceDeviceId == b.referenceDeviceId, "channel reference device"); F(std::fabs(a.gain - b.gain) <= STEP32 + 1e-7 * std::fabs(a.gain) && std::fabs(a.mixingWeight - b.mixingWeight) <= STEP32 + 1e-7 * a.mixingWeight, "channel gain/mixing weight");
  F(a.bodyPartMask == b.bodyPartMask, "channel body part mask"); F(a.frequencySampling == b.frequencySampling && a.sampleCount == b.sampleCount, "channel sampling"); F(a.direction.has_value() == b.direction.has_value() && (!a.direction || show(*a.direction) == show(*b.direction)), "channel direction");
  F(a.actuatorResolution.has_value() == b.actuatorResolution.has_value() && (!a.actuatorResolution || show(*a.actuatorResolution) == show(*b.actuatorResolution)), "actuator resolution"); F(a.bodyPartTarget == b.bodyPartTarget, "body part target");
  F(a.actuatorTarget.has_value() == b.actuatorTarget.has_value() && (!a.actuatorTarget || G::eqv(*a.actuatorTarget, *b.actuatorTarget)), "actuator target"); F(a.vertices == b.vertices, "vertices");
  F(a.bands.size() == b.bands.size(), "number of bands"); for (size_t i = 0; i < a.bands.size(); i++) { auto s = cmpband(a.bands[i], b.bands[i]); if (!s.empty()) return s; } return "";
}
static auto cmpdev(const ReferenceDevice &a, const ReferenceDevice &b) -> std::string {
  F(a.id == b.id && a.name == b.name && a.bodyPartMask == b.bodyPartMask && a.type == b.type, "reference device fields");
  F(cl(a.maximumFrequency, b.maximumFrequency, STEP32) && cl(a.minimumFrequency, b.minimumFrequency, STEP32) && cl(a.resonanceFrequency, b.resonanceFrequency, STEP32) && cl(a.maximumAmplitude, b.maximumAmplitude, STEP32) && cl(a.impedance, b.impedance, STEP32) && cl(a.maximumVoltage, b.maximumVoltage, STEP32) && cl(a.maximumCurrent, b.maximumCurrent, STEP32) && cl(a.maximumDisplacement, b.maximumDisplacement, STEP32) && cl(a.weight, b.weight, STEP32) && cl(a.size, b.size, STEP32) && cl(a.custom, b.custom, STEP32), "reference device characteristics");
  return "";
}
static auto cmp(const Haptics &a, const Haptics &b) -> std::string {
  F(a.version == b.version && a.profile == b.profile && a.level == b.level && a.date == b.date && a.description == b.description, "document fields"); F(G::eqv(a.avatars, b.avatars), "avatars"); F(a.perceptions.size() == b.perceptions.size(), "number of perceptions");
  for (size_t i = 0; i < a.perceptions.size(); i++) {
    auto &p = a.perceptions[i]; auto &q = b.perceptions[i];
    F(p.id == q.id && p.avatarId == q.avatarId && p.description == q.description && p.perceptionModality == q.perceptionModality && p.unitExponent == q.unitExponent && p.perceptionUnitExponent == q.perceptionUnitExponent, "perception fields");
    F(p.effectLibrary.size() == q.effectLibrary.size() && p.referenceDevices.size() == q.referenceDevices.size() && p.channels.size() == q.channels.size(), "sizes of a perception");
    for (size_t j = 0; j < p.effectLibrary.size(); j++) { auto s = cmplib(p.effectLibrary[j], q.effectLibrary[j]); if (!s.empty()) return s; }
    for (size_t j = 0; j < p.referenceDevices.size(); j++) { auto s = cmpdev(p.referenceDevices[j], q.referenceDevices[j]); if (!s.empty()) return s; }
    for (size_t j = 0; j < p.channels.size(); j++) { auto s = cmpchan(p.channels[j], q.channels[j]); if (!s.empty()) return s; }
  }
  return "";
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  char tmp[] = "/tmp/vhmXXXXXX"; if (!mkdtemp(tmp)) return 2; std::string d = tmp, p1 = d + "/a.hmpg", p2 = d + "/b.hmpg";
  while (H::more()) {
    Haptics h = doc(); H::cases++; auto desc = show(h); H::at("hmpg:save-load", desc);
    bool ok = IOBinary::writeFile(h, p1); CHECK(ok, "hmpg:writer", desc); if (!ok) continue;
    Haptics g; ok = IOBinary::loadFile(p1, g); CHECK(ok, "hmpg:loader", desc); if (!ok) continue;
    auto s = cmp(h, g); for (auto &c : s) if (c == 32) c = 95; CHECK(s.empty(), "hmpg:field:" + s, desc << " LOADED " << show(g));
    g.timescale = 1000; Haptics g0 = g; ok = IOBinary::writeFile(g, p2); auto b1 = slurp(p1), b2 = slurp(p2); CHECK(ok && b1 == b2, "hmpg:resave", desc << " LOADED " << show(g0));
    { std::vector<uint8_t> mem(b1.begin(), b1.end()); Haptics m; if (!mem.empty()) { IOMemoryBuffer buf((char *)mem.data(), mem.size()); ok = IOBinary::loadMemory(buf, m); m.timescale = 1000; CHECK(ok && show(m) == show(g0), "hmpg:memory", desc); } }
  }
  unlink(p1.c_str()); unlink(p2.c_str()); rmdir(d.c_str());
  return H::finish();
}

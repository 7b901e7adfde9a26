// random documents, deep comparison and printing (private members are reached with -fno-access-control)
#pragma once
#include "h.h"
#include <Types/include/Haptics.h>
namespace G {
using namespace haptics::types;
inline auto near(double a, double b, double tol = 0) -> bool { return a == b || std::fabs(a - b) <= tol || (std::isnan(a) && std::isnan(b)); }
inline auto show(const Keyframe &k) -> std::string {
  std::ostringstream o; o.precision(9); o << "(";
  if (k.relativePosition) o << "p=" << *k.relativePosition; if (k.amplitudeModulation) o << " a=" << *k.amplitudeModulation; if (k.frequencyModulation) o << " f=" << *k.frequencyModulation;
  o << ")"; return o.str();
}
inline auto show(const Effect &e) -> std::string {
  std::ostringstream o; o.precision(9);
  o << "E{id=" << e.id << " pos=" << e.position << " t=" << (int)e.effectType;
  if (e.phase) o << " ph=" << *e.phase; if (e.baseSignal) o << " bs=" << (int)*e.baseSignal; if (e.semantic) o << " sem='" << *e.semantic << "'";
  if (!e.keyframes.empty()) { o << " kf="; for (auto &k : e.keyframes) o << show(k); }
  if (!e.timeline.empty()) { o << " tl=["; for (auto &t : e.timeline) o << show(t); o << "]"; }
  if (!e.waveletBitstream.empty()) { o << " wl=" << e.waveletBitstream.size() << "B"; }
  o << "}"; return o.str();
}
inline auto show(const Band &b) -> std::string {
  std::ostringstream o; o << "B{type=" << (int)b.bandType; if (b.curveType) o << " curve=" << (int)*b.curveType; if (b.blockLength) o << " bl=" << *b.blockLength; if (b.priority) o << " prio=" << *b.priority;
  o << " lo=" << b.lowerFrequencyLimit << " hi=" << b.upperFrequencyLimit << " fx=["; for (auto &e : b.effects) o << show(e) << ","; o << "]}"; return o.str();
}
inline auto show(const Vector &v) -> std::string { std::ostringstream o; o << "<" << (int)v.X << "," << (int)v.Y << "," << (int)v.Z << ">"; return o.str(); }
inline auto show(const Channel &c) -> std::string {
  std::ostringstream o; o.precision(9); o << "C{id=" << c.id << " '" << c.description << "' gain=" << c.gain << " mix=" << c.mixingWeight << " bpm=" << c.bodyPartMask;
  if (c.priority) o << " prio=" << *c.priority; if (c.referenceDeviceId) o << " dev=" << *c.referenceDeviceId; if (c.frequencySampling) o << " fs=" << *c.frequencySampling; if (c.sampleCount) o << " sc=" << *c.sampleCount;
  if (c.direction) o << " dir=" << show(*c.direction); if (c.actuatorResolution) o << " res=" << show(*c.actuatorResolution);
  if (c.bodyPartTarget) { o << " bpt="; for (auto t : *c.bodyPartTarget) o << (int)t << ","; } if (c.actuatorTarget) { o << " at="; for (auto &t : *c.actuatorTarget) o << show(t); }
  o << " vert="; for (auto v : c.vertices) o << v << ","; o << " bands=["; for (auto &b : c.bands) o << show(b) << ","; o << "]}"; return o.str();
}
inline auto show(const ReferenceDevice &d) -> std::string {
  std::ostringstream o; o.precision(9); o << "D{id=" << d.id << " '" << d.name << "'"; if (d.bodyPartMask) o << " bpm=" << *d.bodyPartMask;
  auto f = [&](const char *n, const std::optional<float> &x) { if (x) o << " " << n << "=" << *x; };
  f("maxF", d.maximumFrequency); f("minF", d.minimumFrequency); f("res", d.resonanceFrequency); f("maxA", d.maximumAmplitude); f("imp", d.impedance); f("maxV", d.maximumVoltage); f("maxI", d.maximumCurrent); f("maxD", d.maximumDisplacement); f("w", d.weight); f("size", d.size); f("cus", d.custom);
  if (d.type) o << " type=" << (int)*d.type; o << "}"; return o.str();
}
inline auto show(const Perception &p) -> std::string {
  std::ostringstream o; o << "P{id=" << p.id << " av=" << p.avatarId << " '" << p.description << "' mod=" << (int)p.perceptionModality; if (p.priority) o << " prio=" << *p.priority; if (p.effectSemanticScheme) o << " scheme='" << *p.effectSemanticScheme << "'";
  if (p.unitExponent) o << " ue=" << (int)*p.unitExponent; if (p.perceptionUnitExponent) o << " pue=" << (int)*p.perceptionUnitExponent;
  o << " lib=["; for (auto &e : p.effectLibrary) o << show(e) << ","; o << "] dev=["; for (auto &d : p.referenceDevices) o << show(d) << ","; o << "] ch=["; for (auto &c : p.channels) o << show(c) << ","; o << "]}"; return o.str();
}
inline auto show(const Avatar &a) -> std::string { std::ostringstream o; o << "A{id=" << a.id << " lod=" << a.lod << " type=" << (int)a.type; if (a.mesh) o << " mesh='" << *a.mesh << "'"; o << "}"; return o.str(); }
inline auto show(const Haptics &h) -> std::string {
  std::ostringstream o; o << "H{v='" << h.version << "' profile='" << h.profile << "' level=" << (int)h.level << " date='" << h.date << "' desc='" << h.description << "'"; if (h.timescale) o << " ts=" << *h.timescale;
  o << " av=["; for (auto &a : h.avatars) o << show(a); o << "] sync=["; for (auto &s : h.syncs) { o << s.timestamp; if (s.timescale) o << "/" << *s.timescale; o << ","; }
  o << "] perc=["; for (auto &p : h.perceptions) o << show(p) << ","; o << "]}"; return o.str();
}
template <class T> auto eqv(const std::vector<T> &a, const std::vector<T> &b) -> bool { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (show(a[i]) != show(b[i])) return false; return true; }
template <class T> auto same(const T &a, const T &b) -> bool { return show(a) == show(b); }
} // namespace G
// ---------------------------------------------------------------- random values
namespace G {
template <class T> void push(std::vector<T> &v, T x) { v.push_back(x); }
inline auto rkf() -> Keyframe { Keyframe k; k.relativePosition = H::chance(.9) ? std::optional<int>(H::ri(0, 2000)) : std::nullopt; if (H::chance(.7)) k.amplitudeModulation = (float)H::rd(-1, 1); if (H::chance(.5)) k.frequencyModulation = (int)H::ri(0, 1000); return k; }
inline auto reffect(int depth = 1) -> Effect {
  Effect e; e.id = (int)H::ri(-1, 40); e.position = (int)H::ri(0, 30) * 100; if (H::chance(.5)) e.phase = (float)H::rd(0, 3); if (H::chance(.5)) e.baseSignal = (BaseSignal)H::ri(0, 4); if (H::chance(.3)) e.semantic = H::rstr(6);
  e.effectType = (EffectType)H::ri(0, 2); int n = (int)H::ri(0, 4); for (int i = 0; i < n; i++) e.keyframes.push_back(rkf());
  if (depth > 0 && H::chance(.3)) { int m = (int)H::ri(1, 3); for (int i = 0; i < m; i++) e.timeline.push_back(reffect(depth - 1)); }
  return e;
}
inline auto rband() -> Band {
  Band b; b.bandType = (BandType)H::ri(0, 3); if (H::chance(.5)) b.curveType = (CurveType)H::ri(0, 5); if (H::chance(.5)) b.blockLength = (int)H::ri(1, 4096); if (H::chance(.3)) b.priority = (int)H::ri(0, 9);
  b.lowerFrequencyLimit = (int)H::ri(0, 500); b.upperFrequencyLimit = (int)H::ri(500, 2000); int n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) b.effects.push_back(reffect()); return b;
}
inline auto rvec() -> Vector { return Vector((int8_t)H::ri(-128, 127), (int8_t)H::ri(-128, 127), (int8_t)H::ri(-128, 127)); }
inline auto rchannel() -> Channel {
  Channel c; c.id = (int)H::ri(-1, 100); c.description = H::rstr(8); c.gain = (float)H::rd(0, 2); c.mixingWeight = (float)H::rd(0, 2); c.bodyPartMask = (uint32_t)H::ri(0, 0xFFFFFFFFl); int n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) c.vertices.push_back((int)H::ri(-5, 100000));
  if (H::chance(.4)) c.priority = (int)H::ri(0, 9); if (H::chance(.4)) c.referenceDeviceId = (int)H::ri(0, 9); if (H::chance(.4)) c.frequencySampling = (uint32_t)H::ri(0, 48000); if (H::chance(.4)) c.sampleCount = (uint32_t)H::ri(0, 480000);
  if (H::chance(.4)) c.direction = rvec(); if (H::chance(.4)) c.actuatorResolution = rvec(); if (H::chance(.4)) { std::vector<BodyPartTarget> t; int m = (int)H::ri(0, 3); for (int i = 0; i < m; i++) t.push_back((BodyPartTarget)H::pick<int>({0, 1, 10, 11, 12, 13, 14, 15, 20, 21})); c.bodyPartTarget = t; }
  if (H::chance(.4)) { std::vector<Vector> t; int m = (int)H::ri(0, 3); for (int i = 0; i < m; i++) t.push_back(rvec()); c.actuatorTarget = t; }
  n = (int)H::ri(0, 2); for (int i = 0; i < n; i++) c.bands.push_back(rband()); return c;
}
inline auto rdevice() -> ReferenceDevice {
  ReferenceDevice d; d.id = (int)H::ri(-1, 50); d.name = H::rstr(8); if (H::chance(.5)) d.bodyPartMask = (uint32_t)H::ri(0, 0xFFFFFFFFl); auto f = [&](std::optional<float> &x) { if (H::chance(.4)) x = (float)H::rd(0, 900); };
  f(d.maximumFrequency); f(d.minimumFrequency); f(d.resonanceFrequency); f(d.maximumAmplitude); f(d.impedance); f(d.maximumVoltage); f(d.maximumCurrent); f(d.maximumDisplacement); f(d.weight); f(d.size); f(d.custom); if (H::chance(.5)) d.type = (ActuatorType)H::ri(0, 4); return d;
}
inline auto rperception() -> Perception {
  Perception p; p.id = (int)H::ri(-1, 99); p.avatarId = (int)H::ri(-1, 99); p.description = H::rstr(8); if (H::chance(.4)) p.priority = (int)H::ri(0, 9); if (H::chance(.4)) p.effectSemanticScheme = H::rstr(8); p.perceptionModality = (PerceptionModality)H::ri(0, 11);
  if (H::chance(.5)) p.unitExponent = (int8_t)H::ri(-128, 127); if (H::chance(.5)) p.perceptionUnitExponent = (int8_t)H::ri(-128, 127); int n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) p.effectLibrary.push_back(reffect()); n = (int)H::ri(0, 2); for (int i = 0; i < n; i++) p.referenceDevices.push_back(rdevice());
  n = (int)H::ri(0, 2); for (int i = 0; i < n; i++) p.channels.push_back(rchannel()); return p;
}
inline auto ravatar() -> Avatar { Avatar a; a.id = (int)H::ri(-1, 50); a.lod = (int)H::ri(0, 9); a.type = (AvatarType)H::ri(0, 3); if (H::chance(.5)) a.mesh = H::rstr(8); return a; }
inline auto rhaptics() -> Haptics {
  Haptics h; h.version = H::rstr(6); h.profile = H::rstr(6); h.level = (uint8_t)H::ri(0, 255); h.date = H::rstr(8); h.description = H::rstr(8); if (H::chance(.5)) h.timescale = (unsigned)H::ri(1, 100000); int n = (int)H::ri(0, 3); for (int i = 0; i < n; i++) h.perceptions.push_back(rperception());
  n = (int)H::ri(0, 2); for (int i = 0; i < n; i++) h.avatars.push_back(ravatar()); n = (int)H::ri(0, 2); for (int i = 0; i < n; i++) { Sync s; s.timestamp = (int)H::ri(0, 5000); h.syncs.push_back(s); } return h;
}
} // namespace G

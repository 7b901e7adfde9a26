// random metadata packets of the streaming format written and read back
#include "gen.h"
#include <IOHaptics/include/IOStream.h>
using namespace haptics::types;
using haptics::io::IOStream;
using Bits = std::vector<bool>;
static auto q(double v, double lo, double hi, int n) -> float { double m = std::pow(2., n) - 1, x = (v - lo) / (hi - lo); x = std::min(1., std::max(0., x)); return (float)(std::round(x * m) / m * (hi - lo) + lo); }
static void oq(std::optional<float> &x, double lo = 0) { if (x) x = q(*x, lo, 10000, 32); }
static auto edge(long a, long b) -> long { return H::chance(.2) ? (H::chance(.5) ? a : b) : H::ri(a, b); }
static auto sem() -> std::string { auto it = effectSemanticToString.begin(); std::advance(it, H::ri(0, (long)effectSemanticToString.size() - 1)); return std::string(it->second); }
static auto txt() -> std::string { if (H::chance(.02)) return std::string(255, 'z'); if (H::chance(.1)) { std::string s; int n = (int)H::ri(1, 6); for (int i = 0; i < n; i++) s += (char)H::ri(-128, 127); return s; } return H::rstr(9); }
static auto decAvatar(Avatar a) -> Avatar { if ((int)a.type != 0) a.mesh.reset(); else a.mesh = a.mesh.value_or(""); return a; }
static auto avatar() -> Avatar { Avatar a; a.id = (int)edge(0, 255); a.lod = (int)edge(0, 255); a.type = (AvatarType)H::ri(0, 3); if (H::chance(.7)) a.mesh = txt(); return a; }
static auto device() -> ReferenceDevice {
  auto d = G::rdevice(); d.id = (int)edge(0, 255); d.name = txt();
  if (H::chance(.05)) { auto f = [](std::optional<float> &x) { x = (float)H::rd(0, 10000); }; f(d.maximumFrequency); f(d.minimumFrequency); f(d.resonanceFrequency); f(d.maximumAmplitude); f(d.impedance); f(d.maximumVoltage); f(d.maximumCurrent); f(d.maximumDisplacement); f(d.weight); f(d.size); f(d.custom); }
  if (d.custom && H::chance(.4)) d.custom = (float)H::rd(-10000, 0);
  return d;
}
static auto decDevice(ReferenceDevice d) -> ReferenceDevice {
  oq(d.maximumFrequency); oq(d.minimumFrequency); oq(d.resonanceFrequency); oq(d.maximumAmplitude); oq(d.impedance); oq(d.maximumVoltage); oq(d.maximumCurrent); oq(d.maximumDisplacement); oq(d.weight); oq(d.size); oq(d.custom, -10000);
  d.bodyPartMask = d.bodyPartMask.value_or(0); return d;
}
static auto libeffect(int depth) -> Effect {
  auto e = G::reffect(0); e.id = (int)edge(0, 65535); e.position = (int)edge(0, (1 << 25) - 1); if (e.semantic) e.semantic = sem(); if (e.phase) e.phase = (float)H::rd(0, 6.28318);
  for (auto &k : e.keyframes) { if (k.relativePosition) k.relativePosition = (int)edge(0, 65535); if (k.frequencyModulation) k.frequencyModulation = (int)edge(0, 65535); }
  if (depth > 0 && H::chance(.4)) { int m = (int)H::ri(1, 3); for (int i = 0; i < m; i++) e.timeline.push_back(libeffect(depth - 1)); }
  return e;
}
static auto decLib(Effect e) -> Effect {
  if (e.effectType == EffectType::Basis) { e.phase = q(e.phase.value_or(0), 0, haptics::io::MAX_PHASE, 16); e.baseSignal = e.baseSignal.value_or(BaseSignal::Sine); } else { e.phase.reset(); e.baseSignal.reset(); }
  for (auto &k : e.keyframes) if (k.amplitudeModulation) k.amplitudeModulation = q(*k.amplitudeModulation, -1, 1, 8);
  for (auto &t : e.timeline) t = decLib(t);
  return e;
}
template <class P> static void prio(P &p) { p.priority = p.priority.value_or(0); if (*p.priority == 0) p.priority.reset(); }
static auto perception() -> Perception {
  auto p = G::rperception(); p.id = (int)edge(0, 255); p.avatarId = (int)edge(0, 255); p.description = txt(); if (p.priority) p.priority = (int)edge(0, 255); if (p.effectSemanticScheme) p.effectSemanticScheme = txt();
  for (auto &d : p.referenceDevices) d = device(); for (auto &e : p.effectLibrary) e = libeffect(2); return p;
}
static auto channel() -> Channel {
  auto c = G::rchannel(); c.id = (int)edge(0, 65535); c.description = txt(); if (c.priority) c.priority = (int)edge(0, 255); if (c.referenceDeviceId) c.referenceDeviceId = (int)edge(0, 254); c.gain = (float)H::rd(-10000, 10000); c.mixingWeight = (float)H::rd(0, 10000);
  if (c.frequencySampling) c.frequencySampling = (uint32_t)edge(0, 0x7FFFFFFF); if (c.sampleCount) c.sampleCount = (uint32_t)edge(0, 0xFFFFFFFFl); for (auto &v : c.vertices) v = (int)edge(INT32_MIN, INT32_MAX); return c;
}
static auto decChannel(Channel c) -> Channel {
  prio(c); c.gain = q(c.gain, -10000, 10000, 32); c.mixingWeight = q(c.mixingWeight, 0, 10000, 32); c.bands.clear();
  if (c.actuatorResolution) { c.bodyPartMask = 0; c.bodyPartTarget = c.bodyPartTarget.value_or(std::vector<BodyPartTarget>{}); c.actuatorTarget = c.actuatorTarget.value_or(std::vector<Vector>{}); }
  else { c.bodyPartTarget.reset(); c.actuatorTarget.reset(); }
  if (c.frequencySampling.value_or(0) > 0) c.sampleCount = c.sampleCount.value_or(0); else { c.frequencySampling.reset(); c.sampleCount.reset(); }
  return c;
}
static void junk(Bits &b) { for (int i = (int)H::ri(0, 20); i > 0; i--) b.push_back(H::chance(.5)); }
int main(int argc, char **argv) {
  H::init(argc, argv);
  H::at("meta", "start");
  while (H::more()) {
    H::cases++;
    Haptics ctx; std::set<int> ids; int n = (int)H::ri(1, 3); for (int i = 0; i < n; i++) { Perception p; do p.id = (int)edge(0, 255); while (!ids.insert(p.id).second); ctx.perceptions.push_back(p); }
    int pi = (int)H::ri(0, n - 1);
    switch (H::ri(0, 9)) {
    case 0: {
      auto a = avatar(); H::at("avatar", G::show(a)); Bits b, w; try { IOStream::writeAvatar(a, b); } catch (std::exception &x) { CHECK(false, "avatar-throws", G::show(a) + " " + x.what()); break; }
      w = b; junk(w); Avatar r; int len = (int)H::ri(0, 50), l0 = len; IOStream::readAvatar(w, r, len); CHECK(len - l0 == (int)b.size(), "avatar-length", G::show(a)); CHECK(G::same(r, decAvatar(a)), "avatar", G::show(a) + " read " + G::show(r)); break; }
    case 1: {
      auto d = device(); H::at("device", G::show(d)); Bits b, w; IOStream::writeReferenceDevice(d, b); w = b; junk(w); ReferenceDevice r; int len = (int)H::ri(0, 50), l0 = len; IOStream::readReferenceDevice(w, r, len);
      CHECK(len - l0 == (int)b.size(), "device-length", G::show(d)); CHECK(G::same(r, decDevice(d)), "device", G::show(d) + " read " + G::show(r)); break; }
    case 2: {
      Haptics h; h.version = txt(); h.profile = txt(); h.level = (uint8_t)edge(0, 255); h.date = txt(); h.description = txt(); for (int i = (int)H::ri(0, 3); i > 0; i--) h.avatars.push_back(avatar()); for (int i = (int)H::ri(0, 3); i > 0; i--) h.perceptions.push_back(Perception());
      H::at("haptics", G::show(h)); Bits b; try { IOStream::writeMetadataHaptics(h, b); } catch (std::exception &x) { CHECK(false, "haptics-throws", G::show(h)); break; } junk(b); Haptics r; bool ok = IOStream::readMetadataHaptics(r, b);
      auto e = h; e.perceptions.clear(); for (auto &a : e.avatars) a = decAvatar(a); e.timescale = r.timescale; CHECK(ok && G::same(r, e), "haptics", G::show(h) + " read " + G::show(r)); break; }
    case 3: {
      IOStream::StreamWriter w; w.perception = perception(); H::at("perception", G::show(w.perception)); Bits b; IOStream::writeMetadataPerception(w, b); junk(b); IOStream::StreamReader r; r.perception = perception(); bool ok = IOStream::readMetadataPerception(r, b);
      auto e = w.perception; prio(e); e.unitExponent = e.unitExponent.value_or(-3); e.perceptionUnitExponent = e.perceptionUnitExponent.value_or(0); e.effectLibrary.clear(); e.channels.clear(); for (auto &d : e.referenceDevices) d = decDevice(d);
      CHECK(ok && G::same(r.perception, e), "perception", G::show(w.perception) + " read " + G::show(r.perception)); break; }
    case 4: {
      auto p = perception(); p.id = ctx.perceptions[pi].id; H::at("library", G::show(p)); Bits b; IOStream::writeLibrary(p, b); junk(b); IOStream::StreamReader r; r.haptic = ctx; bool ok = IOStream::readLibrary(r, b);
      auto e = ctx; for (auto &f : p.effectLibrary) e.perceptions[pi].effectLibrary.push_back(decLib(f)); CHECK(ok && G::same(r.haptic, e), "library", G::show(p) + " read " + G::show(r.haptic)); break; }
    case 5: {
      IOStream::StreamWriter w; w.perception = ctx.perceptions[pi]; w.channel = channel(); H::at("channel", G::show(w.channel)); Bits b; IOStream::writeMetadataChannel(w, b); junk(b); IOStream::StreamReader r; r.haptic = ctx; r.channel = channel(); bool ok = IOStream::readMetadataChannel(r, b);
      CHECK(ok && G::same(r.channel, decChannel(w.channel)), "channel", G::show(w.channel) + " read " + G::show(r.channel)); CHECK(G::same(r.perception, ctx.perceptions[pi]), "channel-parent", "perception of the channel"); break; }
    case 6: {
      int cid = (int)edge(0, 65535); std::set<int> cids; for (auto &p : ctx.perceptions) for (int i = (int)H::ri(0, 2); i > 0; i--) { Channel c; do c.id = (int)edge(0, 65535); while (!cids.insert(c.id).second); p.channels.push_back(c); }
      if (ctx.perceptions[pi].channels.empty()) { Channel c; while (!cids.insert(cid).second) cid = (int)edge(0, 65535); c.id = cid; ctx.perceptions[pi].channels.push_back(c); }
      int ci = (int)H::ri(0, (long)ctx.perceptions[pi].channels.size() - 1);
      IOStream::StreamWriter w; w.perception = ctx.perceptions[pi]; w.channel = w.perception.channels[ci]; w.bandStream.id = (int)edge(0, 255); auto &d = w.bandStream.band; d = G::rband(); d.lowerFrequencyLimit = (int)edge(0, 65535); d.upperFrequencyLimit = (int)edge(0, 65535); if (d.blockLength) d.blockLength = (int)edge(0, 255); if (d.priority) d.priority = (int)edge(0, 255); d.curveType = d.curveType;
      H::at("band", G::show(d)); Bits b; IOStream::writeMetadataBand(w, b); junk(b); IOStream::StreamReader r; r.haptic = ctx; bool ok = IOStream::readMetadataBand(r, b);
      auto e = d; prio(e); e.effects.clear(); if (e.bandType == BandType::Curve) e.curveType = d.getCurveTypeOrDefault(); else e.curveType.reset(); e.blockLength = Band().blockLength; if (e.bandType == BandType::WaveletWave) e.blockLength = d.getBlockLengthOrDefault();
      CHECK(ok && r.bandStream.id == w.bandStream.id && G::same(r.bandStream.band, e), "band", G::show(d) + " read " + G::show(r.bandStream.band)); CHECK(G::same(r.perception, w.perception) && G::same(r.channel, w.channel), "band-parents", "perception and channel of the band"); break; }
    case 7: {
      IOStream::StreamWriter w; w.time = (int)edge(0, INT32_MAX); w.timescale = (unsigned)edge(1, 0x7FFFFFFF); w.nominalDuration = (unsigned)edge(0, (1 << 24) - 1); w.durationDeviation = (unsigned)edge(0, (1 << 24) - 1); w.overlapping = H::chance(.5);
      std::ostringstream o; o << w.time << " " << w.timescale << " " << w.nominalDuration << " " << w.durationDeviation << " " << w.overlapping; H::at("timing", o.str()); Bits b; IOStream::StreamReader r; auto keep = r.timescale;
      bool init = H::chance(.6); if (init) IOStream::writeInitializationTiming(w, b); else IOStream::writeTiming(w, b); junk(b); if (init) IOStream::readInitializationTiming(r, b); else IOStream::readTiming(r, b);
      CHECK((int)r.time == w.time && r.haptic.syncs.size() == 1 && r.haptic.syncs[0].timestamp == w.time, "timing-time", o.str());
      if (init) CHECK(r.timescale == w.timescale && r.nominalDuration == w.nominalDuration && r.durationDeviation == w.durationDeviation && r.overlapping == w.overlapping && r.haptic.syncs[0].timescale == std::optional<unsigned>(w.timescale), "timing-init", o.str());
      else CHECK(r.timescale == keep && r.haptic.syncs[0].getTimescaleOrDefault() == Sync(0).getTimescaleOrDefault(), "timing", o.str());
      break; }
    case 8: {
      int t = (int)H::ri(0, 11); int size = (int)edge(32, (1 << 20) - 8); if (t == 5 && size < 32) size = 32; Bits b; IOStream::writeMIHSPacketHeader((haptics::io::MIHSPacketType)t, size, b); std::ostringstream o; o << "type " << t << " payload " << size; H::at("header", o.str());
      CHECK((int)b.size() == 24, "header-size", o.str()); junk(b); int bytes = (size + 7) / 8 - (t == 5 ? 4 : 0); CHECK((int)IOStream::readMIHSPacketType(b) == t, "header-type", o.str()); CHECK(IOStream::readPacketLength(b) == bytes, "header-length", o.str()); break; }
    case 9: {
      IOStream::StreamWriter w; auto &h = w.haptic; h.version = txt(); h.avatars.clear(); for (int i = (int)H::ri(0, 2); i > 0; i--) h.avatars.push_back(avatar());
      std::set<int> cids; int id = 0, bands = 0;
      for (auto &x : ctx.perceptions) {
        auto p = perception(); p.id = x.id; p.channels.clear();
        for (int i = (int)H::ri(1, 2); i > 0; i--) { auto c = channel(); do c.id = (int)edge(0, 65535); while (!cids.insert(c.id).second); c.bands.clear();
          for (int j = (int)H::ri(1, 3); j > 0; j--) { auto d = G::rband(); d.lowerFrequencyLimit = (int)edge(0, 65535); d.upperFrequencyLimit = (int)edge(0, 65535); if (d.blockLength) d.blockLength = (int)edge(0, 255); if (d.priority) d.priority = (int)edge(0, 255);
            d.effects.clear(); Effect e; e.id = ++id; e.effectType = EffectType::Basis; e.keyframes.push_back(Keyframe(0, 1.f, 100)); d.effects.push_back(e); c.bands.push_back(d); bands++; }
          p.channels.push_back(c); }
        h.perceptions.push_back(p); }
      H::at("packets", G::show(h)); IOStream::StreamReader r = IOStream::initializeStream(); auto text = G::show(h);
      using T = haptics::io::MIHSPacketType; haptics::io::IOStream::CRC crc; bool good = true;
      for (auto t : {T::MetadataHaptics, T::MetadataPerception, T::EffectLibrary, T::MetadataChannel, T::MetadataBand}) {
        std::vector<Bits> ps; CHECK(IOStream::writeMIHSPacket(t, w, ps), "packet-written", text);
        size_t want = 1; if (t != T::MetadataHaptics) { want = 0; for (auto &p : h.perceptions) { if (t == T::MetadataPerception) want++; else if (t == T::EffectLibrary) want += !p.effectLibrary.empty(); else if (t == T::MetadataChannel) want += p.channels.size(); } if (t == T::MetadataBand) want = bands; }
        CHECK(ps.size() == want, "packet-count", text);
        for (auto &b : ps) { CHECK(b.size() % 8 == 0 && IOStream::readMIHSPacketType(b) == t && 24 + 8 * (size_t)IOStream::readPacketLength(b) == b.size(), "packet-length", text); good = IOStream::readMIHSPacket(b, r, crc) && good; } }
      auto e = h; for (auto &a : e.avatars) a = decAvatar(a); e.timescale = r.haptic.timescale; e.syncs = r.haptic.syncs;
      for (auto &p : e.perceptions) { p.unitExponent = p.unitExponent.value_or(-3); p.perceptionUnitExponent = p.perceptionUnitExponent.value_or(0); prio(p); for (auto &d : p.referenceDevices) d = decDevice(d); for (auto &f : p.effectLibrary) f = decLib(f);
        for (auto &c : p.channels) { auto bs = c.bands; c = decChannel(c); for (auto &d : bs) { prio(d); d.effects.clear(); if (d.bandType == BandType::Curve) d.curveType = d.getCurveTypeOrDefault(); else d.curveType.reset(); d.blockLength = d.bandType == BandType::WaveletWave ? std::optional<int>(d.getBlockLengthOrDefault()) : Band().blockLength; } c.bands = bs; } }
      CHECK(good && G::same(r.haptic, e), "packets", text + " read " + G::show(r.haptic)); break; }
    }
  }
  return H::finish();
}

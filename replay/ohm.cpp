// P14: object-haptic metadata files written and read back
#include "h.h"
#include <Tools/include/OHMData.h>
using haptics::tools::OHMData;
using B = OHMData::Body;
static std::string q(const std::string &s) { std::ostringstream o; o << '"'; for (unsigned char c : s) { if (c > 31 && c < 127) o << c; else o << "\\x" << std::hex << (int)c << std::dec; } o << '"'; return o.str(); }
static std::string str(size_t width) {
  size_t n = H::chance(.25) ? H::pick<size_t>({0, 1, width - 1, width}) : (size_t)H::ri(0, (long)width);
  std::string s; bool any = H::chance(.3);
  for (size_t i = 0; i < n; i++) s += any ? (char)H::ri(0, 255) : (char)H::ri(32, 126);
  while (!s.empty() && s.back() == 0) s.back() = 'x';   // the field is padded with NUL: a trailing NUL cannot be told from padding
  return s;
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  char dir[] = "/tmp/ohmXXXXXX"; if (!mkdtemp(dir)) return 3;
  std::string f = std::string(dir) + "/a.ohm";
  while (H::more()) {
    H::cases++;
    OHMData d; d.setHeader("OHM "); d.setVersion((short)H::pick<long>({1, 0, -1, 255, 256, 32767, -32768, H::ri(-32768, 32767)}));
    d.setDescription(str(32));
    int ne = H::chance(.02) ? (int)H::pick<int>({127, 128, 255, 256, 257, 300}) : (int)H::ri(0, 4);
    for (int i = 0; i < ne; i++) {
      OHMData::HapticElementMetadata e; e.elementFilename = str(64); e.elementDescription = str(32);
      int nc = H::chance(.03) ? (int)H::pick<int>({127, 128, 200, 256, 258}) : (int)H::ri(0, 4);
      for (int j = 0; j < nc; j++) {
        OHMData::HapticChannelMetadata c; c.channelDescription = str(32); c.gain = (float)(H::chance(.2) ? H::pick<double>({0, -1, 1, 1e-30, 3e38}) : H::rd(-10, 10));
        uint32_t m = H::chance(.3) ? 1u << H::ri(0, 31) : (uint32_t)H::rng(); if (H::chance(.1)) m = H::pick<uint32_t>({0, 0xFFFFFFFFu, 0x80, 0x8000, 0x800000, 0x80000000u, 0x0080FF00});
        c.bodyPartMask = (B)m; e.channelsMetadata.push_back(c);
      }
      e.numHapticChannels = (short)nc; d.addHapticElementMetadata(e);
    }
    std::ostringstream w; w << "a file of " << ne << " elements";
    H::at("ohm", w.str());
    if (!d.writeFile(f)) { CHECK(false, "write", "writeFile failed for " << w.str()); continue; }
    OHMData r; bool ok = r.loadFile(f);
    CHECK(ok, "load", "loadFile failed for " << w.str()); if (!ok) continue;
    CHECK(r.getHeader() == d.getHeader(), "header", q(r.getHeader()));
    CHECK(r.getVersion() == d.getVersion(), "version", d.getVersion() << " read back as " << r.getVersion());
    CHECK(r.getDescription() == d.getDescription(), "description", q(d.getDescription()) << " read back as " << q(r.getDescription()));
    CHECK(r.getHapticElementMetadataSize() == (size_t)ne, "elements", ne << " elements read back as " << r.getHapticElementMetadataSize());
    if (r.getHapticElementMetadataSize() != (size_t)ne) continue;
    for (int i = 0; i < ne; i++) {
      auto &a = d.getHapticElementMetadataAt(i); auto &b = r.getHapticElementMetadataAt(i);
      CHECK(a.elementFilename == b.elementFilename, "element:file", q(a.elementFilename) << " read back as " << q(b.elementFilename) << " (element " << i << ")");
      CHECK(a.elementDescription == b.elementDescription, "element:description", q(a.elementDescription) << " read back as " << q(b.elementDescription));
      CHECK(a.numHapticChannels == b.numHapticChannels && b.channelsMetadata.size() == a.channelsMetadata.size(), "element:channels", a.numHapticChannels << " channels read back as " << b.numHapticChannels << "/" << b.channelsMetadata.size());
      for (size_t j = 0; j < a.channelsMetadata.size() && j < b.channelsMetadata.size(); j++) {
        auto &x = a.channelsMetadata[j], &y = b.channelsMetadata[j];
        CHECK(x.channelDescription == y.channelDescription, "channel:description", q(x.channelDescription) << " read back as " << q(y.channelDescription));
        CHECK(x.gain == y.gain, "channel:gain", x.gain << " read back as " << y.gain);
        CHECK(x.bodyPartMask == y.bodyPartMask, "channel:mask", std::hex << (uint32_t)x.bodyPartMask << " read back as " << (uint32_t)y.bodyPartMask);
      }
    }
    // a second object loaded from the first one's file writes the same bytes
    std::string g = std::string(dir) + "/b.ohm"; r.writeFile(g);
    auto slurp = [](const std::string &p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); };
    CHECK(slurp(f) == slurp(g), "stable", "writing what was loaded gives different bytes (" << w.str() << ")");
  }
  { OHMData r; CHECK(!r.loadFile(std::string(dir) + "/missing"), "missing", "a missing file was loaded"); std::ofstream(f).put('X'); CHECK(!r.loadFile(f), "bad-header", "a file without the header was loaded"); }
  unlink(f.c_str()); unlink((std::string(dir) + "/b.ohm").c_str()); rmdir(dir);
  return H::finish();
}

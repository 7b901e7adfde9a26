// P05: packets protected by a checksum, altered and checked
#include "h.h"
#include <IOHaptics/include/IOStream.h>
using namespace haptics::io;
using Bits = std::vector<bool>;
using Packets = std::vector<Bits>;
static std::string s(const Packets &p) { std::ostringstream o; o << p.size() << " packets of"; for (auto &x : p) o << ' ' << x.size(); o << " bits:"; for (auto &x : p) { o << ' '; for (size_t i = 0; i < x.size() && i < 100; i++) o << x[i]; } return o.str(); }
static bool check(Packets p, Bits payload, MIHSPacketType t) {
  IOStream::CRC crc; if (!IOStream::readCRC(payload, crc, t)) return false;
  CHECK(crc.nbPackets == p.size(), "count", "payload of " << s(p) << " read as protecting " << (int)crc.nbPackets);
  bool r = IOStream::checkCRC(p, crc);
  CHECK(crc.nbPackets == 0, "done", "after the check " << (int)crc.nbPackets << " packets are still to be checked");
  return r;
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  while (H::more()) {
    H::cases++;
    int n = H::chance(.5) ? 16 : 32;
    int m = H::chance(.5) ? 1 : H::chance(.02) ? (int)H::ri(250, 255) : (int)H::ri(2, 5);
    Packets p; size_t total = 0;
    for (int i = 0; i < m; i++) {
      double d = H::pick<double>({0, .05, .5, .5, 1});
      Bits b; int len = m > 10 ? (int)H::ri(1, 9) : H::chance(.2) ? (int)H::ri(1, 6) : (int)H::ri(1, 220);
      for (int j = 0; j < len; j++) b.push_back(H::chance(d));
      total += b.size(); p.push_back(b);
    }
    auto t = n == 16 ? (m == 1 ? MIHSPacketType::CRC16 : MIHSPacketType::GlobalCRC16) : (m == 1 ? MIHSPacketType::CRC32 : MIHSPacketType::GlobalCRC32);
    H::at("crc", s(p));
    Bits payload; Packets in = p;
    bool ok = IOStream::writeCRC(in, payload, n == 16 ? 0 : 1);
    CHECK(ok && in == p && payload.size() == (size_t)n + (m > 1 ? 8 : 0), "write", "checksum of " << s(p) << " has " << payload.size() << " bits"); if (!ok) continue;
    std::string tag = n == 16 ? "16" : "32";
    // independent remainder
    Bits reg; { uint64_t r = 0; uint64_t poly = n == 16 ? CRC16_POLYNOMIAL : CRC32_POLYNOMIAL; for (auto &x : p) for (bool b : x) { bool top = (r >> (n - 1)) & 1; r = (r << 1) & (n == 16 ? 0xFFFFu : 0xFFFFFFFFu); if (top != b) r ^= poly; } for (int k = n - 1; k >= 0; k--) reg.push_back((r >> k) & 1); }
    CHECK(Bits(payload.end() - n, payload.end()) == reg, "value:" + tag, "checksum of " << s(p));
    CHECK(check(p, payload, t), "intact:" + tag, "intact data rejected: " << s(p));
    for (int k = 0; k < 6; k++) {
      Packets q = p; size_t len = k == 0 ? 1 : (size_t)H::ri(1, std::min<long>(n, (long)total)); size_t at = (size_t)H::ri(0, (long)(total - len));
      std::ostringstream w; size_t i = 0; bool any = false;
      for (auto &x : q) for (size_t j = 0; j < x.size(); j++, i++) if (i >= at && i < at + len) { bool f = i == at || i == at + len - 1 || H::chance(.5); if (f) { x[j] = !x[j]; any = true; } }
      if (any) CHECK(!check(q, payload, t), (len == 1 ? "flip:" : "burst:") + tag, "burst of " << len << " bits at bit " << at << " accepted in " << s(p));
    }
  }
  return H::finish();
}

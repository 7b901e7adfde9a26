// P02: sequences of fields written and read back at every alignment
#include "h.h"
#include <IOHaptics/include/IOBinaryPrimitives.h>
#include <Types/include/Channel.h>
using P = haptics::io::IOBinaryPrimitives;
struct Op { std::string name; std::function<void(std::vector<bool> &)> write; std::function<void(std::istream &, std::vector<bool> &, size_t)> read; };
static std::string bstr(const std::vector<bool> &b) { std::string s; for (auto x : b) s += x ? '1' : '0'; return s.substr(0, 400); }
static std::string hist;
template <class T, size_t n> Op field() {
  uint64_t m = n >= 64 ? ~0ull : ((1ull << n) - 1);
  uint64_t raw = H::chance(.3) ? H::pick<uint64_t>({0, m, 1, m >> 1, (m >> 1) + 1}) : H::rng() & m;
  T v = (T)raw;
  if (H::chance(.3)) v = (T)H::rng(); // bits above the field are dropped
  T want = (T)((uint64_t)v & m);
  std::string nm = "field" + std::to_string(n) + "x" + std::to_string(sizeof(T) * 8) + "=" + std::to_string((long long)v);
  return {nm, [v](std::vector<bool> &o) { auto k = o.size(); P::writeNBits<T, n>(v, o); CHECK(o.size() == k + n, "width", "writeNBits of " << n << " bits appended " << (o.size() - k) << " after " << hist); },
          [want, nm](std::istream &f, std::vector<bool> &u, size_t) { T g = P::readNBits<T, n>(f, u); CHECK(g == want, "field", nm << " read back as " << (long long)g << " in " << hist); CHECK(u.size() < 8, "leftover", u.size() << " left-over bits after " << nm << " in " << hist); }};
}
template <class T, size_t n> Op dec() {
  static const std::vector<std::pair<float, float>> rg = {{-1, 1}, {0, 6.28318F}, {0, 10000}, {-10000, 10000}, {0, 1}};
  auto r = H::pick(rg);
  float v = (float)(H::chance(.2) ? H::pick<double>({r.first, r.second, 0.0, r.first - 5.0, r.second + 5.0}) : H::rd(r.first, r.second));
  std::string nm = "decimal" + std::to_string(n) + "=" + std::to_string(v) + " in [" + std::to_string(r.first) + "," + std::to_string(r.second) + "]";
  return {nm, [=](std::vector<bool> &o) { auto k = o.size(); P::writeFloatNBits<T, n>(v, o, r.first, r.second); CHECK(o.size() == k + n, "width", nm << " appended " << (o.size() - k) << " bits"); },
          [=](std::istream &f, std::vector<bool> &u, size_t) {
            float g = P::readFloatNBits<T, n>(f, r.first, r.second, u);
            double c = std::min((double)r.second, std::max((double)r.first, (double)v)), step = ((double)r.second - r.first) / (std::pow(2.0, (double)n) - 1), eps = 1.2e-7 * std::fabs(c);
            CHECK(std::fabs(g - c) <= step + eps, "decimal", nm << " read back as " << g << " in " << hist);
            CHECK(g >= r.first && g <= r.second, "decimal-range", nm << " read back as " << g);
            { std::vector<bool> a, b; P::writeFloatNBits<T, n>(v, a, r.first, r.second); P::writeFloatNBits<T, n>(g, b, r.first, r.second); CHECK(a == b, "decimal-stable", nm << " decoded to " << g << " is written differently"); }
          }};
}
static Op str() {
  int n = H::chance(.2) ? (int)H::pick<int>({0, 1, 254, 255, 256, 300}) : (int)H::ri(0, 30);
  std::string s; for (int i = 0; i < n; i++) s += (char)H::ri(0, 255);
  std::string want = s.substr(0, 255);
  return {"string of " + std::to_string(n), [s](std::vector<bool> &o) { P::writeString(s, o); },
          [want, n](std::istream &f, std::vector<bool> &u, size_t) { auto g = P::readString(f, u); CHECK(g == want, "string", "string of " << n << " characters read back with " << g.size() << " in " << hist); }};
}
static Op vec() {
  haptics::types::Vector v((int8_t)H::ri(-128, 127), (int8_t)H::ri(-128, 127), (int8_t)H::ri(-128, 127));
  return {"vector", [v](std::vector<bool> &o) { P::writeVector(v, o); }, [v](std::istream &f, std::vector<bool> &u, size_t) { auto g = P::readVector(f, u); CHECK(g.X == v.X && g.Y == v.Y && g.Z == v.Z, "vector", "vector differs in " << hist); }};
}
static Op any() {
  switch (H::ri(0, 24)) {
  case 0: return field<uint8_t, 8>(); case 1: return field<uint8_t, 2>(); case 2: return field<uint8_t, 3>(); case 3: return field<uint8_t, 4>();
  case 4: return field<uint16_t, 8>(); case 5: return field<uint16_t, 16>(); case 6: return field<uint16_t, 12>(); case 7: return field<int16_t, 8>();
  case 8: return field<int16_t, 16>(); case 9: return field<int, 8>(); case 10: return field<int, 16>(); case 11: return field<int, 25>(); case 12: return field<int, 32>();
  case 13: return field<uint32_t, 32>(); case 14: return field<uint32_t, 25>(); case 15: return field<uint32_t, 16>(); case 16: return field<int8_t, 8>(); case 17: return field<char, 8>();
  case 18: return dec<uint8_t, 8>(); case 19: return dec<uint16_t, 16>(); case 20: return dec<uint32_t, 32>(); case 21: return dec<uint32_t, 16>(); case 22: return vec(); case 23: return field<uint8_t, 1>(); default: return str();
  }
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  while (H::more()) {
    H::cases++;
    int n = (int)H::ri(1, 12);
    std::vector<Op> ops; hist.clear();
    for (int i = 0; i < n; i++) { ops.push_back(any()); hist += ops.back().name + "; "; }
    H::at("fields", hist);
    std::vector<bool> out;
    for (auto &o : ops) o.write(out);
    auto tail = (uint8_t)H::ri(0, 255);
    P::writeNBits<uint8_t, 8>(tail, out);
    auto bits = out;
    P::fillBitset(out);
    CHECK(out.size() % 8 == 0 && out.size() < bits.size() + 8 && out.size() >= bits.size(), "fill", "fillBitset turned " << bits.size() << " bits into " << out.size());
    for (size_t i = 0; i < out.size(); i++) CHECK(out[i] == (i < bits.size() ? (bool)bits[i] : false), "fill", "bit " << i << " changed by fillBitset");
    std::stringstream f;
    P::writeBitset(H::chance(.5) ? bits : out, f);
    auto s = f.str();
    CHECK(s.size() == out.size() / 8, "pack", bits.size() << " bits written as " << s.size() << " bytes");
    for (size_t i = 0; i < out.size() && i / 8 < s.size(); i++) CHECK((((unsigned char)s[i / 8] >> (7 - i % 8)) & 1) == out[i], "pack", "bit " << i << " of " << bstr(out) << " lost in the bytes");
    std::vector<bool> u; size_t idx = 0;
    for (auto &o : ops) o.read(f, u, idx++);
    auto t = P::readNBits<uint8_t, 8>(f, u);
    CHECK(t == tail, "following", "data after the fields read as " << (int)t << " instead of " << (int)tail << ": " << hist);
    // bit-vector based readers
    {
      std::vector<bool> b; int pre = (int)H::ri(0, 20); for (int i = 0; i < pre; i++) b.push_back(H::chance(.5));
      int w = (int)H::ri(1, 31); uint64_t v = H::rng() & ((1ull << w) - 1); std::string txt; for (int i = w - 1; i >= 0; i--) txt += ((v >> i) & 1) ? '1' : '0';
      P::writeStrBits(txt, b); int sl = (int)H::ri(0, 6); std::string st; for (int i = 0; i < sl; i++) st += (char)H::ri(0, 255);
      for (auto c : st) for (int j = 7; j >= 0; j--) b.push_back(((unsigned char)c >> j) & 1);
      int post = (int)H::ri(0, 20); for (int i = 0; i < post; i++) b.push_back(H::chance(.5));
      auto keep = b; int i1 = pre;
      H::at("vector", "width " + std::to_string(w) + " value " + std::to_string(v) + " at " + std::to_string(pre));
      auto r = P::readUInt(b, i1, w); CHECK((uint64_t)r == v && i1 == pre + w, "readUInt", w << " bits " << v << " at " << pre << " read as " << r << ", cursor " << i1);
      auto q = P::readString(b, i1, sl); CHECK(q == st && i1 == pre + w + 8 * sl, "readString", "string of " << sl << " at " << pre + w);
      i1 = pre; auto si = P::readInt(b, i1, w); int64_t sv = (v >> (w - 1)) & 1 ? (int64_t)v - (1ll << w) : (int64_t)v; CHECK(si == sv && i1 == pre + w, "readInt", w << " bits " << sv << " at " << pre << " read as " << si << ", cursor " << i1);
      CHECK(b == keep, "readers-const", "a reader changed the bits");
      std::vector<bool> fb = keep; float fv = (float)H::rd(-1, 1); P::writeFloatNBits<uint8_t, 8>(fv, fb, -1, 1); int fi = (int)keep.size(); fb.push_back(true);
      float g = P::readFloatNBits<8>(fb, fi, -1, 1); CHECK(std::fabs(g - fv) <= 2.0 / 255 + 1e-6 && fi == (int)keep.size() + 8, "vector-decimal", fv << " read as " << g << " cursor " << fi);
      std::vector<bool> fb2 = keep; fv = (float)H::rd(0, 6.28); P::writeFloatNBits<uint16_t, 16>(fv, fb2, 0, 6.28318F); fi = (int)keep.size(); fb2.push_back(true);
      g = P::readFloatNBits<16>(fb2, fi, 0, 6.28318F); CHECK(std::fabs(g - fv) <= 6.3 / 65535 + 1e-6 && fi == (int)keep.size() + 16, "vector-decimal", fv << " read as " << g << " cursor " << fi);
      // readNBytes
      std::stringstream g2(s); int k = (int)H::ri(0, (long)s.size()); std::vector<bool> nb = keep; P::readNBytes(g2, k, nb);
      CHECK(nb.size() == keep.size() + 8 * (size_t)k, "readNBytes", k << " bytes gave " << nb.size() - keep.size() << " bits");
      for (size_t i = 0; i < nb.size(); i++) CHECK(nb[i] == (i < keep.size() ? keep[i] : out[i - keep.size()]), "readNBytes", "bit " << i << " wrong");
    }
  }
  return H::finish();
}

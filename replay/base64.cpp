// P17: bit strings, byte strings and Base64 texts converted and back
#include "h.h"
#define private public
#define protected public
#include <IOHaptics/include/IOJson.h>
#include <Spiht/include/ArithEnc.h>
#include <Spiht/include/ArithDec.h>
#undef private
#undef protected
using J = haptics::io::IOJson;
using V = std::vector<unsigned char>;
static std::string s(const V &v) { std::ostringstream o; o << v.size() << ":"; for (size_t i = 0; i < v.size() && i < 200; i++) o << (int)v[i] << (v.size() > 8 && v.size() < 80 ? "," : " "); return o.str(); }
static V trim(V v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; }
template <class F> static bool safely(const char *key, const V &in, F f) {
  H::at(key, s(in));
  try { f(); return true; } catch (std::exception &e) { CHECK(false, std::string(key) + ":throws", e.what() << " for " << s(in)); }
  return false;
}
int main(int argc, char **argv) {
  H::init(argc, argv);
  while (H::more()) {
    H::cases++;
    int n = (int)(H::chance(.5) ? H::ri(0, 14) : H::ri(0, 300));
    double p = H::pick<double>({0, .1, .5, .9, 1});
    V bits; for (int i = 0; i < n; i++) bits.push_back(H::chance(p) ? 1 : 0);
    V in = bits, t, b;
    safely("encode", bits, [&] {
      J::bits2base64(in, t);
      static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      for (size_t i = 0; i < t.size(); i++) {
        int g = 0; for (int k = 0; k < 6; k++) g = 2 * g + (6 * i + k < bits.size() ? bits[6 * i + k] : 0);
        CHECK(t[i] == (unsigned char)al[g], "encode:character", "character " << i << " is " << (int)t[i] << " for " << s(bits));
      }
      J::base642bits(t, b);
      CHECK(trim(b) == trim(bits), "round:bits", s(bits) << " came back as " << s(b));
      CHECK(b == trim(b), "round:trimmed", s(bits) << " came back with trailing zeros");
    });
    V text; for (int i = 0; i < n; i++) text.push_back((unsigned char)"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[H::chance(p) ? H::ri(0, 63) : 0]);
    V tb, tt; in = text;
    safely("decode", text, [&] {
      J::base642bits(in, tb); J::bits2base64(tb, tt);
      V w = text; while (!w.empty() && w.back() == 'A') w.pop_back();
      while (!tt.empty() && tt.back() == 'A') tt.pop_back();
      CHECK(tt == w, "round:text", s(text) << " came back as " << s(tt));
    });
    V bytes; for (int i = 0; i < n; i++) bytes.push_back(H::chance(p) ? (unsigned char)H::ri(0, 255) : 0);
    V bb, by; in = bytes;
    safely("bytes", bytes, [&] { J::bytes2bits(in, bb); J::bits2bytes(bb, by); CHECK(by == trim(bytes), "round:bytes", s(bytes) << " came back as " << s(by)); CHECK(bb == trim(bb), "round:bytes-trim", "trailing zero bits kept for " << s(bytes)); });
    V p1, p2; in = bits;
    safely("pack", bits, [&] { J::bits2bytes(in, p1); V u; haptics::spiht::ArithEnc::convert2bytes(in, u); CHECK(u == p1, "pack:same", "the two packers differ for " << s(bits)); CHECK(p1.size() == (bits.size() + 7) / 8, "pack:size", p1.size() << " bytes for " << s(bits)); J::bytes2bits(p1, p2); CHECK(trim(p2) == trim(bits), "round:pack", s(bits) << " came back as " << s(p2)); });
    V u1, u2; in = bytes;
    safely("unpack", bytes, [&] { haptics::spiht::ArithDec::convert2bits(in, u1); CHECK(u1.size() == 8 * bytes.size(), "unpack:size", u1.size() << " bits for " << s(bytes)); haptics::spiht::ArithEnc::convert2bytes(u1, u2); CHECK(u2 == bytes, "round:unpack", s(bytes) << " came back as " << s(u2)); });
  }
  return H::finish();
}

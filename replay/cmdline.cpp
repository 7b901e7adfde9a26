// P16: every argument vector of up to 5 tokens over a small alphabet, then random ones
#include "h.h"
#include <Tools/include/InputParser.h>
using namespace H;
static void one(const std::vector<std::string> &t, const std::vector<std::string> &opts) {
  std::vector<const char *> a; for (auto &s : t) a.push_back(s.c_str());
  std::ostringstream w; for (auto &s : t) w << "'" << s << "' "; at("args", w.str());
  haptics::tools::InputParser p(a);
  for (auto &o : opts) {
    size_t k = 0; while (k < t.size() && t[k] != o) k++;
    bool has = k < t.size(); std::string val = has && k + 1 < t.size() ? t[k + 1] : "";
    for (int rep = 0; rep < 2; rep++) { CHECK(p.cmdOptionExists(o) == has, "exists", w.str() << " option " << o); CHECK(p.getCmdOption(o) == val, "value", w.str() << " option " << o << " got '" << p.getCmdOption(o) << "' want '" << val << "'"); }
    cases++;
  }
}
int main(int c, char **v) {
  init(c, v);
  std::vector<std::string> al = {"-f", "-o", "x", "", "--ff"};
  for (int n = 0; n <= 5; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= (int)al.size(); for (int k = 0; k < tot; k++) { std::vector<std::string> t; int q = k; for (int i = 0; i < n; i++) { t.push_back(al[q % al.size()]); q /= (int)al.size(); } one(t, {"-f", "-o", "--ff", "-h"}); } }
  while (more()) {
    std::vector<std::string> t; int n = (int)ri(0, 12); for (int i = 0; i < n; i++) t.push_back(chance(.5) ? pick<std::string>({"-f", "--file", "-o", "--output", "-b", "--binary", "--streaming", "-h", "-r", "--refactor"}) : rstr(6)); one(t, {"-f", "--file", "-o", "--output", "-b", "--binary", "--streaming", "-h", "-r"});
    std::string f = rstr(10, "ab./"); std::string g = f; at("ext", f); auto p = f.rfind('.'); CHECK(haptics::tools::InputParser::getFileExt(g) == (p == std::string::npos ? "" : f.substr(p + 1)) && f == g, "ext", f);
  }
  return finish();
}

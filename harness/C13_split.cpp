// C13: splitting of text records
#include "pbt.h"
#include <cstring>
#include <ndt_gslam/utils/string_tools.h>
using pbt::Case;
namespace
{
std::string text(Case& c, int lo, int hi, const char* alphabet)
{
  std::string s;
  size_t n = static_cast<size_t>(c.range(lo, hi)), m = std::strlen(alphabet);
  for (size_t i = 0; i < n; ++i)
    s += alphabet[c.draw(m)];
  return s;
}
std::string show(const std::vector<std::string>& v)
{
  std::string r;
  for (auto& x : v)
    r += "<" + x + ">";
  return r;
}
}
PBT_TEST(join_and_scan, 100000, 3000000)
{
  const char* al = c.coin(70) ? "ab,;" : "0123456789.,- eab\n";
  std::string sep = text(c, 1, 3, al), data = text(c, 0, c.coin(90) ? 20 : 300, al);
  if (c.coin(10))
    data += std::string(1, '\0') + sep;
  auto parts = slamuk::split(data, sep);
  c.note("separator <", sep, "> data <", data, "> parts ", show(parts));
  PBT_REQUIRE("never-empty", !parts.empty(), "");
  std::string back = parts[0];
  for (size_t i = 1; i < parts.size(); ++i)
    back += sep + parts[i];
  PBT_REQUIRE("join", back == data, "<", back, ">");
  for (auto& p : parts)
    PBT_REQUIRE("no-separator-left", p.find(sep) == std::string::npos, "<", p, ">");
  // leftmost, non-overlapping
  std::vector<std::string> want;
  size_t b = 0, i = 0;
  while (i + sep.size() <= data.size()) {
    if (data.compare(i, sep.size(), sep) == 0) {
      want.push_back(data.substr(b, i - b));
      i += sep.size();
      b = i;
    } else
      ++i;
  }
  want.push_back(data.substr(b));
  PBT_REQUIRE("parts", parts == want, show(parts), " want ", show(want));
  c.nontrivial(parts.size() > 1);
  if (sep.size() > 1)
    c.label("long separator");
  if (parts.size() > 2)
    c.label("several parts");
}
// fields survive being written as a record and split again
PBT_TEST(records, 60000, 2000000)
{
  size_t n = static_cast<size_t>(c.range(1, 12));
  std::vector<std::string> f;
  std::string sep = c.coin(70) ? "," : "; ", data;
  for (size_t i = 0; i < n; ++i) {
    f.push_back(c.coin(50) ? std::to_string(c.range(-1000, 1000)) : text(c, 0, 6, "abc.- "));
    data += (i ? sep : "") + f[i];
  }
  c.note("record <", data, ">");
  c.nontrivial(n > 2);
  PBT_REQUIRE("fields", slamuk::split(data, sep) == f, show(slamuk::split(data, sep)));
}
PBT_MAIN()

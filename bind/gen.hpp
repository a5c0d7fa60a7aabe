// Names and times for made-up events.
#pragma once
#include <cstdint>
#include <random>
#include <string>
namespace vp_gen {
using R = std::mt19937_64;
inline std::string name(R& r, bool utf8)
{
  auto n = r() % 8 == 0 ? 1 + r() % 4000 : 1 + r() % 40;
  std::string s;
  static char const* bits[] = {"a", "B", "/", " ", "\"", "\\", "\n", "\t", "\x01", "\x1f", "\x7f", "\u00e9", "\u00df", "\u0416", "\u4e16", "\u754c",
    "\U0001f600", "\u200b", "\u2028", "\ufeff", "%s", "<", "&", "'", "\ufffd", "\U0010ffff", "\ud7ff", "-", "."};
  auto kind = r() % 4;
  while (s.size() < n) {
    if (! utf8 && kind == 0) s += char(1 + r() % 255);
    else if (! utf8 && kind == 1 && r() % 8 == 0) s += char(0x80 + r() % 128);
    else s += bits[r() % (sizeof bits / sizeof *bits)];
  }
  return s;
}
inline int64_t when(R& r)
{
  switch (r() % 8) {
    case 0: return (int64_t)r();
    case 1: return INT64_MAX - (int64_t)(r() % 3);
    case 2: return INT64_MIN + (int64_t)(r() % 3);
    case 3: return (int64_t)(r() % 3) - 1;
    case 4: return int64_t{1} << (r() % 63);
    case 5: return -(int64_t{1} << (r() % 63));
    default: return 1700000000000000000 + (int64_t)(r() % 1000000000000);
  }
}
// nothing which a line of text could stumble over
inline std::string plain(R& r)
{
  std::string s;
  for (auto n = 1 + r() % 60; n--;) s += "abcdefghijklmnopqrstuvwxyz0123456789/._-"[r() % 40];
  return s;
}
} // namespace vp_gen

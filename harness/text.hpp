// Text generators shared by the harnesses.
#pragma once
#include "pbt.hpp"
namespace text {
// bytes without zero
inline std::string bytes_nz(pbt::Case &c, unsigned max) {
  std::string s;
  bool plain = c.chance(2, 3);
  for (unsigned n = (unsigned)c.draw(max); n; n--) s += plain ? (char)c.range('a', 'z') : (char)c.range(1, 255);
  return s;
}
// a length next to one at which a counter of 8, 15, 16 or 17 bits runs out
inline size_t edge(pbt::Case &c) {
  size_t b = c.pick<size_t>({128, 256, 512, 4096, 32768, 65536, 65536, 131072});
  return b - 3 + c.draw(6);
}
// a text of exactly n characters whose every part differs from its neighbours
inline std::string ramp(size_t n, unsigned from) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = (char)(33 + (i + i / 94 + i / 4099 + from) % 94);
  return s;
}
}  // namespace text

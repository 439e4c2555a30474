// Unicode texts for the editor-protocol properties.
#pragma once
#include "core/pbt.h"
#include <algorithm>
#include <string>

namespace txt {
using U32 = std::u32string;
inline size_t width(char32_t C) { return C < 0x80 ? 1 : C < 0x800 ? 2 : C < 0x10000 ? 3 : 4; }
inline void put(std::string &O, char32_t C) {
  if (C < 0x80) O += (char)C;
  else if (C < 0x800) { O += (char)(0xC0 | C >> 6); O += (char)(0x80 | (C & 63)); }
  else if (C < 0x10000) { O += (char)(0xE0 | C >> 12); O += (char)(0x80 | (C >> 6 & 63)); O += (char)(0x80 | (C & 63)); }
  else { O += (char)(0xF0 | C >> 18); O += (char)(0x80 | (C >> 12 & 63)); O += (char)(0x80 | (C >> 6 & 63)); O += (char)(0x80 | (C & 63)); }
}
inline std::string utf8(const U32 &T) {
  std::string O;
  for (char32_t C : T) put(O, C);
  return O;
}
/// The UTF-16 length of valid UTF-8.
inline size_t utf16(std::string_view T) {
  size_t N = 0;
  for (unsigned char C : T) N += (C & 0xC0) == 0x80 ? 0 : C >= 0xF0 ? 2 : 1;
  return N;
}
inline bool validUtf8(std::string_view S) {
  for (size_t I = 0; I < S.size();) {
    unsigned char C = S[I];
    size_t N = C < 0x80 ? 1 : C >= 0xC2 && C < 0xE0 ? 2 : C >= 0xE0 && C < 0xF0 ? 3 : C >= 0xF0 && C < 0xF5 ? 4 : 0;
    if (!N || I + N > S.size()) return false;
    char32_t V = N == 1 ? C : C & (0x7F >> N);
    for (size_t J = 1; J < N; ++J) {
      if (((unsigned char)S[I + J] & 0xC0) != 0x80) return false;
      V = V << 6 | ((unsigned char)S[I + J] & 63);
    }
    if (V > 0x10FFFF || (V >= 0xD800 && V < 0xE000) || width(V) != N) return false;
    I += N;
  }
  return true;
}
inline U32 gen(pbt::Src &S, unsigned Max) {
  static const std::vector<char32_t> Odd{0x80, 0xE9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x301};
  U32 T;
  unsigned N = S.small(Max, 88);
  for (unsigned I = 0; I < N; ++I) switch (S.weighted({8, 4, 2, 6, 1})) {
    case 0: T += U'a' + S.below(26); break;
    case 1: T += U'\n'; break;
    case 2: T += U"\r\n"; break;
    case 3: T += S.pick(Odd); break;
    default: T += S.pick<char32_t>({U' ', U'\t', U'"', U'\\', U'$', U'{', U'}', 1, 0x7F});
    }
  return T;
}
inline std::string bytes(pbt::Src &S, unsigned Max) {
  std::string T;
  unsigned N = S.small(Max, 90);
  for (unsigned I = 0; I < N; ++I) switch (S.weighted({4, 2, 4, 3})) {
    case 0: T += (char)('a' + S.below(26)); break;
    case 1: T += '\n'; break;
    case 2: T += (char)(0x80 + S.below(128)); break;
    default: put(T, S.pick<char32_t>({0xE9, 0x20AC, 0x1F600}));
    }
  return T;
}
} // namespace txt

// Deterministic key pools: pool index -> key, by (mode, seed).  Several indices may map to one key.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include "pbt.h"

namespace keys {
constexpr int kIntModes = 8;
inline uint64_t ikey(uint64_t mode, uint64_t seed, uint64_t i) {
  uint64_t h = pbt::Rng::mix(seed * 31 + 7);
  switch (mode % kIntModes) {
    case 0: return i;                                        // dense from 0
    case 1: return pbt::Rng::mix(seed + i);                  // sparse
    case 2: return (h & ~0xffffffull) + i * 251;             // shared high bytes
    case 3: return i << ((seed % 7) * 8);                    // fan-out on one byte, then the next
    case 4: { uint64_t b = 1ull << (i % 64); return b + (i / 64) - 1 + (h & 1); }   // powers of two and neighbours
    case 5: { // few distinct byte values per byte
      uint64_t r = pbt::Rng::mix(seed ^ (i * 977)), k = 0; static const uint8_t bs[] = {0, 1, 0x7f, 0x80, 0xff, 0xfe};
      for (int q = 0; q < 8; ++q) { k = k << 8 | bs[(r & 0xff) % 6]; r >>= 8; } return k; }
    case 6: return ~0ull - i;                                // from the top
    default: return (h & 0xff00ff00ff00ff00ull) | (i & 0xff) | (i >> 8 & 0xff) << 16 | (i >> 16 & 0xff) << 40;   // sparse bytes
  }
}
constexpr int kStrModes = 8;
inline bool allow_empty = false;   // mode 4 contains the empty string
// no NUL bytes inside unless nul; length <= maxlen
inline std::string skey(uint64_t mode, uint64_t seed, uint64_t i, size_t maxlen = 120, bool nul = false) {
  uint64_t h = pbt::Rng::mix(seed * 131 + i * 7 + 3);
  auto num = [](uint64_t x, int base, int minw) { std::string s; do { s.insert(s.begin(), (char)('a' + x % base)); x /= base; } while (x); while ((int)s.size() < minw) s.insert(s.begin(), 'a'); return s; };
  std::string s;
  switch (mode % kStrModes) {
    case 0: s = num(i, 26, 0); break;                                   // short words
    case 1: s = std::string(3 + seed % 30, 'p') + num(i, 10, 3); break;  // one long shared prefix
    case 2: { size_t l = h % (maxlen < 40 ? maxlen : 40) + 1; uint64_t r = h; for (size_t q = 0; q < l; ++q) { r = pbt::Rng::mix(r); s += (char)(r % 255 + 1); } break; }  // random bytes
    case 3: { size_t l = h % 24 + 1; uint64_t r = h; for (size_t q = 0; q < l; ++q) { r = pbt::Rng::mix(r); s += (char)('a' + r % 2); } break; }   // two letters
    case 4: s = std::string(i % (maxlen ? maxlen : 1), 'x'); if (h & 1) s += 'y'; if (s.empty() && !allow_empty) s = "x"; break;       // prefixes of one another
    case 5: { uint64_t a = i % 5, b = i / 5 % 7, c = i / 35; s = "http://" + std::string(a * 4, (char)('a' + a)) + ".com/" + std::string(b * 5, 'q') + num(c, 4, 0); break; }  // several groups with long shared parts
    case 6: { uint8_t hi[] = {1, 0x7f, 0x80, 0xff, 'a'}; uint64_t r = h; size_t l = h % 18 + 1; for (size_t q = 0; q < l; ++q) { r = pbt::Rng::mix(r); s += (char)hi[r % 5]; } break; }  // sign boundary bytes
    default: s = num(pbt::Rng::mix(i * 3 + seed) % 4096, 16, 8) + std::string(i % 3 * 8, 'z') + num(i, 3, 0); break;   // 8-byte slices
  }
  if (nul && (seed & 2)) for (size_t q = 0; q < s.size(); ++q) if ((pbt::Rng::mix(h + q) & 7) == 0) s[q] = 0;
  if (s.size() > maxlen) s.resize(maxlen);
  return s;
}
inline std::string be64(uint64_t k) { std::string s(8, 0); for (int i = 7; i >= 0; --i) { s[i] = (char)(k & 0xff); k >>= 8; } return s; }
inline std::string hex(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { if (c > 32 && c < 127) o += (char)c; else { snprintf(b, sizeof b, "\\%02x", c); o += b; } } return o; }
}  // namespace keys

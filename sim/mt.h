#ifndef MT_H
#define MT_H
#include "sim.h"
typedef struct { u32 s[624]; int i; } Mt; /* Matsumoto and Nishimura's mt19937ar, written anew */
static void mt_seed(Mt *m, u32 v) { m->s[0] = v; for (u32 k = 1; k < 624; k++) m->s[k] = 1812433253u * (m->s[k - 1] ^ m->s[k - 1] >> 30) + k; m->i = 624; }
static void mt_array(Mt *m, const u32 *key, int n) {
  mt_seed(m, 19650218u); u32 i = 1; int j = 0;
  for (int k = n > 624 ? n : 624; k > 0; k--) { m->s[i] = (m->s[i] ^ (m->s[i - 1] ^ m->s[i - 1] >> 30) * 1664525u) + key[j] + (u32)j; if (++i == 624) { m->s[0] = m->s[623]; i = 1; } if (++j == n) j = 0; }
  for (int k = 623; k > 0; k--) { m->s[i] = (m->s[i] ^ (m->s[i - 1] ^ m->s[i - 1] >> 30) * 1566083941u) - i; if (++i == 624) { m->s[0] = m->s[623]; i = 1; } }
  m->s[0] = 0x80000000u;
}
static u32 mt_next(Mt *m) {
  if (m->i == 624) { for (int k = 0; k < 624; k++) { u32 y = (m->s[k] & 0x80000000u) | (m->s[(k + 1) % 624] & 0x7fffffffu); m->s[k] = m->s[(k + 397) % 624] ^ y >> 1 ^ (y & 1 ? 0x9908b0dfu : 0); } m->i = 0; }
  u32 y = m->s[m->i++]; y ^= y >> 11; y ^= y << 7 & 0x9d2c5680u; y ^= y << 15 & 0xefc60000u; return y ^ y >> 18;
}
#endif

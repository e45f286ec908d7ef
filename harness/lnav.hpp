// Independent IS-GPS-200 LNAV encoder: fields by bit position, words with parity.
#ifndef VF_LNAV_HPP
#define VF_LNAV_HPP
#include <cstdint>
#include <cmath>
namespace lnav
{
   static const double PI_ICD = 3.1415926535898;
      // IS-GPS-200 20.3.5.2: parity of 24 source bits given D29*, D30* of the previous word.
   inline uint32_t parity(uint32_t src24, int d29, int d30)
   {
      static const int E[6][15] = {
         {1,2,3,5,6,10,11,12,13,14,17,18,20,23,0}, {2,3,4,6,7,11,12,13,14,15,18,19,21,24,0},
         {1,3,4,5,7,8,12,13,14,15,16,19,20,22,0}, {2,4,5,6,8,9,13,14,15,16,17,20,21,23,0},
         {1,3,5,6,7,9,10,14,15,16,17,18,21,22,24}, {3,5,6,8,9,10,11,13,15,19,22,23,24,0,0}};
      static const int S[6] = {29, 30, 29, 30, 30, 29};
      uint32_t p = 0;
      for (int k = 0; k < 6; k++)
      {
         int b = S[k] == 29 ? d29 : d30;
         for (int j = 0; j < 15 && E[k][j]; j++) b ^= (src24 >> (24 - E[k][j])) & 1;
         p = (p << 1) | b;
      }
      return p;
   }
   struct SF
   {
      uint8_t bit[301]; // 1-based subframe bits; data bits only are meaningful
      SF() { for (auto& b : bit) b = 0; }
      void put(int start, int n, uint64_t v) { for (int i = 0; i < n; i++) bit[start + i] = (v >> (n - 1 - i)) & 1; }
      void put2(int s1, int n1, int s2, int n2, uint64_t v) { put(s1, n1, v >> n2); put(s2, n2, v & ((1ULL << n2) - 1)); }
      uint32_t src(int w) const { uint32_t v = 0; for (int i = 0; i < 24; i++) v = (v << 1) | bit[30 * w + 1 + i]; return v; }
         // upright = source bits in the words; otherwise as transmitted (inverted after D30*=1)
      void words(uint32_t out[10], bool upright, bool zeroParity = false)
      {
         int d29 = 0, d30 = 0;
         for (int w = 0; w < 10; w++)
         {
            uint32_t s = src(w);
            if (w == 1 || w == 9)
            {     // the two non-information bits force D29 = D30 = 0
               for (uint32_t t = 0; t < 4; t++) if ((parity((s & ~3u) | t, d29, d30) & 3) == 0) { s = (s & ~3u) | t; break; }
            }
            uint32_t p = zeroParity ? 0 : parity(s, d29, d30);
            out[w] = ((upright || !d30 ? s : ~s & 0xffffff) << 6) | p;
            d29 = (p >> 1) & 1; d30 = p & 1;
         }
      }
      void head(int sfid, int tlm, int how, int flags) { put(1, 8, 0x8b); put(9, 14, tlm); put(31, 17, how); put(48, 2, flags); put(50, 3, sfid); }
   };
   inline int64_t sgn(uint64_t v, int n) { return (v >> (n - 1)) & 1 ? (int64_t)v - (1LL << n) : (int64_t)v; }
}
#endif

// what the fixed-point primitives are required to return, in arithmetic wide enough never to overflow (read by the analysis, never run)
#include <limits>
#include <stdint.h>
typedef __int128 W;
template <typename T> static inline T q_clamp(const W &v) {
  const W hi = ((W)1 << (sizeof(T) * 8 - 1)) - 1, lo = -((W)1 << (sizeof(T) * 8 - 1));
  return v > hi ? (T)hi : v < lo ? (T)lo : (T)v;
}
template <typename T> static inline T q_lim(const W &v) { return v < 0 ? (T)(-((W)1 << (sizeof(T) * 8 - 1))) : (T)(((W)1 << (sizeof(T) * 8 - 1)) - 1); }
template <typename T> static inline T q_asl(T x, int n);
template <typename T> static inline T q_asr0(T x, int n) { return n > (int)sizeof(T) * 8 - 1 ? (x < 0 ? (T)-1 : (T)0) : (T)((W)x >> n); }
template <typename T> static inline T q_asr(T x, int n) { return n < 0 ? q_asl<T>(x, -n) : q_asr0<T>(x, n); }
template <typename T> static inline T q_asl(T x, int n) {
  if (n < 0) return q_asr0<T>(x, -n);
  if (n > (int)sizeof(T) * 8 - 1) return x == 0 ? (T)0 : q_lim<T>(x);
  return q_clamp<T>((W)x << n);
}
template <typename T> static inline T q_rnd(T x, int n) {
  if (n < 0) return q_asl<T>(x, -n);
  if (n == 0) return x;
  if (n > (int)sizeof(T) * 8 - 1) return 0;
#ifdef ROUND_MODE_UP
  return (T)((W)q_clamp<T>((W)x + ((W)1 << (n - 1))) >> n);     // the rounding addition saturates
#else
  W r = (W)x >> n;
  if (((W)x & ((W)1 << (n - 1))) != 0 && ((r & 1) != 0 || ((W)x & (((W)1 << (n - 1)) - 1)) != 0)) r = r + 1;
  return (T)r;
#endif
}
template <typename T> static inline T q_sat(T x, int bits) {      // held to sizeof(T)*8 - bits bits
  const W hi = ((W)1 << (sizeof(T) * 8 - 1 - bits)) - 1, lo = -((W)1 << (sizeof(T) * 8 - 1 - bits));
  return x > hi ? (T)hi : x < lo ? (T)lo : x;
}
template <typename I, typename O> static inline O q_cast(I x, int n) { return q_clamp<O>((W)q_rnd<I>(x, n)); }
template <typename T> static inline int q_norm(T x) {             // redundant sign bits
  if (x == 0) return (int)sizeof(T) * 8 - 1;
  for (int k = 0; k < (int)sizeof(T) * 8; k++)
    if ((W)x >= -((W)1 << k) && (W)x < ((W)1 << k)) return (int)sizeof(T) * 8 - 1 - k;
  return 0;
}

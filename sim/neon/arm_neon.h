// Stand-in for the compiler's NEON intrinsics: the ones the library uses, written out lane by lane from the Arm
// reference, so that the library's NEON code runs on any machine. Generated by tools/gen_neon.py.
#pragma once
#include <cstdint>
#include <cstring>

typedef int8_t int8x16_t __attribute__((vector_size(16)));
typedef int8_t int8x8_t __attribute__((vector_size(8)));
typedef int16_t int16x8_t __attribute__((vector_size(16)));
typedef int16_t int16x4_t __attribute__((vector_size(8)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef int64_t int64x2_t __attribute__((vector_size(16)));
typedef int64_t int64x1_t __attribute__((vector_size(8)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef double float64x2_t __attribute__((vector_size(16)));
typedef double float64x1_t __attribute__((vector_size(8)));
typedef struct { int8x8_t val[2]; } int8x8x2_t;
typedef struct { uint8x8_t val[2]; } uint8x8x2_t;
#define NEON_EACH(n) for (int i = 0; i < int(n); ++i)
static inline int8x16_t vdupq_n_s8(int8_t a) { int8x16_t r; NEON_EACH(16) r[i] = a; return r; }
static inline int8x16_t vaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(uint8_t(a[i]) + uint8_t(b[i])); return r; }
static inline int8x16_t vsubq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(uint8_t(a[i]) - uint8_t(b[i])); return r; }
static inline int8x16_t vmulq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(uint8_t(a[i]) * uint8_t(b[i])); return r; }
static inline int8x16_t vandq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(a[i] & b[i]); return r; }
static inline int8x16_t vorrq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(a[i] | b[i]); return r; }
static inline int8x16_t veorq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(a[i] ^ b[i]); return r; }
static inline int8x16_t vbicq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(a[i] & ~b[i]); return r; }
static inline uint8x16_t vceqq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] == b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcgtq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] > b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcleq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] <= b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcltq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] < b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcgeq_s8(int8x16_t a, int8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] >= b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline int8x16_t vbslq_s8(uint8x16_t m, int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = int8_t((m[i] & uint8_t(a[i])) | (~m[i] & uint8_t(b[i]))); return r; }
static inline int8x16_t vmaxq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline int8x16_t vminq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline int8x16_t vnegq_s8(int8x16_t a) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(uint8_t(0) - uint8_t(a[i])); return r; }
static inline int8x16_t vabsq_s8(int8x16_t a) { int8x16_t r; NEON_EACH(16) r[i] = a[i] < 0 ? int8_t(uint8_t(0) - uint8_t(a[i])) : a[i]; return r; }
static inline int8x16_t vqaddq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) { int64_t t = int64_t(a[i]) + int64_t(b[i]); r[i] = int8_t(t < (-(int64_t(1) << 7)) ? (-(int64_t(1) << 7)) : t > ((int64_t(1) << 7) - 1) ? ((int64_t(1) << 7) - 1) : t); } return r; }
static inline int8x16_t vqsubq_s8(int8x16_t a, int8x16_t b) { int8x16_t r; NEON_EACH(16) { int64_t t = int64_t(a[i]) - int64_t(b[i]); r[i] = int8_t(t < (-(int64_t(1) << 7)) ? (-(int64_t(1) << 7)) : t > ((int64_t(1) << 7) - 1) ? ((int64_t(1) << 7) - 1) : t); } return r; }
static inline int8x16_t vqabsq_s8(int8x16_t a) { int8x16_t r; NEON_EACH(16) { int64_t t = a[i] < 0 ? -int64_t(a[i]) : a[i]; r[i] = int8_t(t > ((int64_t(1) << 7) - 1) ? ((int64_t(1) << 7) - 1) : t); } return r; }
static inline int8x16_t vshlq_n_s8(int8x16_t a, int n) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(uint8_t(a[i]) << n); return r; }
static inline int8x16_t vshrq_n_s8(int8x16_t a, int n) { int8x16_t r; NEON_EACH(16) r[i] = int8_t(a[i] >> n); return r; }
static inline int8x16_t vld1q_s8(const int8_t *p) { int8x16_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_s8(int8_t *p, int8x16_t a) { memcpy(p, &a, 16); }
static inline int8x8_t vget_low_s8(int8x16_t a) { int8x8_t r; memcpy(&r, &a, 8); return r; }
static inline int8x8_t vget_high_s8(int8x16_t a) { int8x8_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline int8x16_t vcombine_s8(int8x8_t a, int8x8_t b) { int8x16_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline int16x8_t vdupq_n_s16(int16_t a) { int16x8_t r; NEON_EACH(8) r[i] = a; return r; }
static inline int16x8_t vaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(uint16_t(a[i]) + uint16_t(b[i])); return r; }
static inline int16x8_t vsubq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(uint16_t(a[i]) - uint16_t(b[i])); return r; }
static inline int16x8_t vmulq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(uint16_t(a[i]) * uint16_t(b[i])); return r; }
static inline int16x8_t vandq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(a[i] & b[i]); return r; }
static inline int16x8_t vorrq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(a[i] | b[i]); return r; }
static inline int16x8_t veorq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(a[i] ^ b[i]); return r; }
static inline int16x8_t vbicq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(a[i] & ~b[i]); return r; }
static inline uint16x8_t vceqq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] == b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcgtq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] > b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcleq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] <= b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcltq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] < b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcgeq_s16(int16x8_t a, int16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] >= b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline int16x8_t vbslq_s16(uint16x8_t m, int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = int16_t((m[i] & uint16_t(a[i])) | (~m[i] & uint16_t(b[i]))); return r; }
static inline int16x8_t vmaxq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline int16x8_t vminq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline int16x8_t vnegq_s16(int16x8_t a) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(uint16_t(0) - uint16_t(a[i])); return r; }
static inline int16x8_t vabsq_s16(int16x8_t a) { int16x8_t r; NEON_EACH(8) r[i] = a[i] < 0 ? int16_t(uint16_t(0) - uint16_t(a[i])) : a[i]; return r; }
static inline int16x8_t vqaddq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) { int64_t t = int64_t(a[i]) + int64_t(b[i]); r[i] = int16_t(t < (-(int64_t(1) << 15)) ? (-(int64_t(1) << 15)) : t > ((int64_t(1) << 15) - 1) ? ((int64_t(1) << 15) - 1) : t); } return r; }
static inline int16x8_t vqsubq_s16(int16x8_t a, int16x8_t b) { int16x8_t r; NEON_EACH(8) { int64_t t = int64_t(a[i]) - int64_t(b[i]); r[i] = int16_t(t < (-(int64_t(1) << 15)) ? (-(int64_t(1) << 15)) : t > ((int64_t(1) << 15) - 1) ? ((int64_t(1) << 15) - 1) : t); } return r; }
static inline int16x8_t vqabsq_s16(int16x8_t a) { int16x8_t r; NEON_EACH(8) { int64_t t = a[i] < 0 ? -int64_t(a[i]) : a[i]; r[i] = int16_t(t > ((int64_t(1) << 15) - 1) ? ((int64_t(1) << 15) - 1) : t); } return r; }
static inline int16x8_t vshlq_n_s16(int16x8_t a, int n) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(uint16_t(a[i]) << n); return r; }
static inline int16x8_t vshrq_n_s16(int16x8_t a, int n) { int16x8_t r; NEON_EACH(8) r[i] = int16_t(a[i] >> n); return r; }
static inline int16x8_t vld1q_s16(const int16_t *p) { int16x8_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_s16(int16_t *p, int16x8_t a) { memcpy(p, &a, 16); }
static inline int16x4_t vget_low_s16(int16x8_t a) { int16x4_t r; memcpy(&r, &a, 8); return r; }
static inline int16x4_t vget_high_s16(int16x8_t a) { int16x4_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline int16x8_t vcombine_s16(int16x4_t a, int16x4_t b) { int16x8_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline int32x4_t vdupq_n_s32(int32_t a) { int32x4_t r; NEON_EACH(4) r[i] = a; return r; }
static inline int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(uint32_t(a[i]) + uint32_t(b[i])); return r; }
static inline int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(uint32_t(a[i]) - uint32_t(b[i])); return r; }
static inline int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(uint32_t(a[i]) * uint32_t(b[i])); return r; }
static inline int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(a[i] & b[i]); return r; }
static inline int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(a[i] | b[i]); return r; }
static inline int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(a[i] ^ b[i]); return r; }
static inline int32x4_t vbicq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(a[i] & ~b[i]); return r; }
static inline uint32x4_t vceqq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] == b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcgtq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] > b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcleq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] <= b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcltq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] < b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcgeq_s32(int32x4_t a, int32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] >= b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline int32x4_t vbslq_s32(uint32x4_t m, int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = int32_t((m[i] & uint32_t(a[i])) | (~m[i] & uint32_t(b[i]))); return r; }
static inline int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline int32x4_t vminq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline int32x4_t vnegq_s32(int32x4_t a) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(uint32_t(0) - uint32_t(a[i])); return r; }
static inline int32x4_t vabsq_s32(int32x4_t a) { int32x4_t r; NEON_EACH(4) r[i] = a[i] < 0 ? int32_t(uint32_t(0) - uint32_t(a[i])) : a[i]; return r; }
static inline int32x4_t vqaddq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) { int64_t t = int64_t(a[i]) + int64_t(b[i]); r[i] = int32_t(t < (-(int64_t(1) << 31)) ? (-(int64_t(1) << 31)) : t > ((int64_t(1) << 31) - 1) ? ((int64_t(1) << 31) - 1) : t); } return r; }
static inline int32x4_t vqsubq_s32(int32x4_t a, int32x4_t b) { int32x4_t r; NEON_EACH(4) { int64_t t = int64_t(a[i]) - int64_t(b[i]); r[i] = int32_t(t < (-(int64_t(1) << 31)) ? (-(int64_t(1) << 31)) : t > ((int64_t(1) << 31) - 1) ? ((int64_t(1) << 31) - 1) : t); } return r; }
static inline int32x4_t vqabsq_s32(int32x4_t a) { int32x4_t r; NEON_EACH(4) { int64_t t = a[i] < 0 ? -int64_t(a[i]) : a[i]; r[i] = int32_t(t > ((int64_t(1) << 31) - 1) ? ((int64_t(1) << 31) - 1) : t); } return r; }
static inline int32x4_t vshlq_n_s32(int32x4_t a, int n) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(uint32_t(a[i]) << n); return r; }
static inline int32x4_t vshrq_n_s32(int32x4_t a, int n) { int32x4_t r; NEON_EACH(4) r[i] = int32_t(a[i] >> n); return r; }
static inline int32x4_t vld1q_s32(const int32_t *p) { int32x4_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_s32(int32_t *p, int32x4_t a) { memcpy(p, &a, 16); }
static inline int32x2_t vget_low_s32(int32x4_t a) { int32x2_t r; memcpy(&r, &a, 8); return r; }
static inline int32x2_t vget_high_s32(int32x4_t a) { int32x2_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline int32x4_t vcombine_s32(int32x2_t a, int32x2_t b) { int32x4_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline int64x2_t vdupq_n_s64(int64_t a) { int64x2_t r; NEON_EACH(2) r[i] = a; return r; }
static inline int64x2_t vaddq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(uint64_t(a[i]) + uint64_t(b[i])); return r; }
static inline int64x2_t vsubq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(uint64_t(a[i]) - uint64_t(b[i])); return r; }
static inline int64x2_t vandq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(a[i] & b[i]); return r; }
static inline int64x2_t vorrq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(a[i] | b[i]); return r; }
static inline int64x2_t veorq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(a[i] ^ b[i]); return r; }
static inline int64x2_t vbicq_s64(int64x2_t a, int64x2_t b) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(a[i] & ~b[i]); return r; }
static inline uint64x2_t vceqq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] == b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcgtq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] > b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcleq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] <= b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcltq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] < b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcgeq_s64(int64x2_t a, int64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] >= b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline int64x2_t vbslq_s64(uint64x2_t m, int64x2_t a, int64x2_t b) { int64x2_t r; NEON_EACH(2) r[i] = int64_t((m[i] & uint64_t(a[i])) | (~m[i] & uint64_t(b[i]))); return r; }
static inline int64x2_t vshlq_n_s64(int64x2_t a, int n) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(uint64_t(a[i]) << n); return r; }
static inline int64x2_t vshrq_n_s64(int64x2_t a, int n) { int64x2_t r; NEON_EACH(2) r[i] = int64_t(a[i] >> n); return r; }
static inline int64x2_t vld1q_s64(const int64_t *p) { int64x2_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_s64(int64_t *p, int64x2_t a) { memcpy(p, &a, 16); }
static inline int64x1_t vget_low_s64(int64x2_t a) { int64x1_t r; memcpy(&r, &a, 8); return r; }
static inline int64x1_t vget_high_s64(int64x2_t a) { int64x1_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline int64x2_t vcombine_s64(int64x1_t a, int64x1_t b) { int64x2_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline uint8x16_t vdupq_n_u8(uint8_t a) { uint8x16_t r; NEON_EACH(16) r[i] = a; return r; }
static inline uint8x16_t vaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(uint8_t(a[i]) + uint8_t(b[i])); return r; }
static inline uint8x16_t vsubq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(uint8_t(a[i]) - uint8_t(b[i])); return r; }
static inline uint8x16_t vmulq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(uint8_t(a[i]) * uint8_t(b[i])); return r; }
static inline uint8x16_t vandq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(a[i] & b[i]); return r; }
static inline uint8x16_t vorrq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(a[i] | b[i]); return r; }
static inline uint8x16_t veorq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(a[i] ^ b[i]); return r; }
static inline uint8x16_t vbicq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(a[i] & ~b[i]); return r; }
static inline uint8x16_t vceqq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] == b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcgtq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] > b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcleq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] <= b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcltq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] < b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vcgeq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] >= b[i] ? uint8_t(-1) : uint8_t(0); return r; }
static inline uint8x16_t vbslq_u8(uint8x16_t m, uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t((m[i] & uint8_t(a[i])) | (~m[i] & uint8_t(b[i]))); return r; }
static inline uint8x16_t vmaxq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline uint8x16_t vminq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline uint8x16_t vqaddq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) { int64_t t = int64_t(a[i]) + int64_t(b[i]); r[i] = uint8_t(t < int64_t(0) ? int64_t(0) : t > ((int64_t(1) << 8) - 1) ? ((int64_t(1) << 8) - 1) : t); } return r; }
static inline uint8x16_t vqsubq_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; NEON_EACH(16) { int64_t t = int64_t(a[i]) - int64_t(b[i]); r[i] = uint8_t(t < int64_t(0) ? int64_t(0) : t > ((int64_t(1) << 8) - 1) ? ((int64_t(1) << 8) - 1) : t); } return r; }
static inline uint8x16_t vshlq_n_u8(uint8x16_t a, int n) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(uint8_t(a[i]) << n); return r; }
static inline uint8x16_t vshrq_n_u8(uint8x16_t a, int n) { uint8x16_t r; NEON_EACH(16) r[i] = uint8_t(a[i] >> n); return r; }
static inline uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_u8(uint8_t *p, uint8x16_t a) { memcpy(p, &a, 16); }
static inline uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, &a, 8); return r; }
static inline uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline uint8x16_t vcombine_u8(uint8x8_t a, uint8x8_t b) { uint8x16_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline uint16x8_t vdupq_n_u16(uint16_t a) { uint16x8_t r; NEON_EACH(8) r[i] = a; return r; }
static inline uint16x8_t vaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(uint16_t(a[i]) + uint16_t(b[i])); return r; }
static inline uint16x8_t vsubq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(uint16_t(a[i]) - uint16_t(b[i])); return r; }
static inline uint16x8_t vmulq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(uint16_t(a[i]) * uint16_t(b[i])); return r; }
static inline uint16x8_t vandq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(a[i] & b[i]); return r; }
static inline uint16x8_t vorrq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(a[i] | b[i]); return r; }
static inline uint16x8_t veorq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(a[i] ^ b[i]); return r; }
static inline uint16x8_t vbicq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(a[i] & ~b[i]); return r; }
static inline uint16x8_t vceqq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] == b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcgtq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] > b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcleq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] <= b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcltq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] < b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vcgeq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] >= b[i] ? uint16_t(-1) : uint16_t(0); return r; }
static inline uint16x8_t vbslq_u16(uint16x8_t m, uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t((m[i] & uint16_t(a[i])) | (~m[i] & uint16_t(b[i]))); return r; }
static inline uint16x8_t vmaxq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline uint16x8_t vminq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline uint16x8_t vqaddq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) { int64_t t = int64_t(a[i]) + int64_t(b[i]); r[i] = uint16_t(t < int64_t(0) ? int64_t(0) : t > ((int64_t(1) << 16) - 1) ? ((int64_t(1) << 16) - 1) : t); } return r; }
static inline uint16x8_t vqsubq_u16(uint16x8_t a, uint16x8_t b) { uint16x8_t r; NEON_EACH(8) { int64_t t = int64_t(a[i]) - int64_t(b[i]); r[i] = uint16_t(t < int64_t(0) ? int64_t(0) : t > ((int64_t(1) << 16) - 1) ? ((int64_t(1) << 16) - 1) : t); } return r; }
static inline uint16x8_t vshlq_n_u16(uint16x8_t a, int n) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(uint16_t(a[i]) << n); return r; }
static inline uint16x8_t vshrq_n_u16(uint16x8_t a, int n) { uint16x8_t r; NEON_EACH(8) r[i] = uint16_t(a[i] >> n); return r; }
static inline uint16x8_t vld1q_u16(const uint16_t *p) { uint16x8_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_u16(uint16_t *p, uint16x8_t a) { memcpy(p, &a, 16); }
static inline uint16x4_t vget_low_u16(uint16x8_t a) { uint16x4_t r; memcpy(&r, &a, 8); return r; }
static inline uint16x4_t vget_high_u16(uint16x8_t a) { uint16x4_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline uint16x8_t vcombine_u16(uint16x4_t a, uint16x4_t b) { uint16x8_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline uint32x4_t vdupq_n_u32(uint32_t a) { uint32x4_t r; NEON_EACH(4) r[i] = a; return r; }
static inline uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(uint32_t(a[i]) + uint32_t(b[i])); return r; }
static inline uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(uint32_t(a[i]) - uint32_t(b[i])); return r; }
static inline uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(uint32_t(a[i]) * uint32_t(b[i])); return r; }
static inline uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(a[i] & b[i]); return r; }
static inline uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(a[i] | b[i]); return r; }
static inline uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(a[i] ^ b[i]); return r; }
static inline uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(a[i] & ~b[i]); return r; }
static inline uint32x4_t vceqq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] == b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcgtq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] > b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcleq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] <= b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcltq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] < b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcgeq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] >= b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vbslq_u32(uint32x4_t m, uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t((m[i] & uint32_t(a[i])) | (~m[i] & uint32_t(b[i]))); return r; }
static inline uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline uint32x4_t vqaddq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) { int64_t t = int64_t(a[i]) + int64_t(b[i]); r[i] = uint32_t(t < int64_t(0) ? int64_t(0) : t > ((int64_t(1) << 32) - 1) ? ((int64_t(1) << 32) - 1) : t); } return r; }
static inline uint32x4_t vqsubq_u32(uint32x4_t a, uint32x4_t b) { uint32x4_t r; NEON_EACH(4) { int64_t t = int64_t(a[i]) - int64_t(b[i]); r[i] = uint32_t(t < int64_t(0) ? int64_t(0) : t > ((int64_t(1) << 32) - 1) ? ((int64_t(1) << 32) - 1) : t); } return r; }
static inline uint32x4_t vshlq_n_u32(uint32x4_t a, int n) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(uint32_t(a[i]) << n); return r; }
static inline uint32x4_t vshrq_n_u32(uint32x4_t a, int n) { uint32x4_t r; NEON_EACH(4) r[i] = uint32_t(a[i] >> n); return r; }
static inline uint32x4_t vld1q_u32(const uint32_t *p) { uint32x4_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_u32(uint32_t *p, uint32x4_t a) { memcpy(p, &a, 16); }
static inline uint32x2_t vget_low_u32(uint32x4_t a) { uint32x2_t r; memcpy(&r, &a, 8); return r; }
static inline uint32x2_t vget_high_u32(uint32x4_t a) { uint32x2_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline uint32x4_t vcombine_u32(uint32x2_t a, uint32x2_t b) { uint32x4_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline uint64x2_t vdupq_n_u64(uint64_t a) { uint64x2_t r; NEON_EACH(2) r[i] = a; return r; }
static inline uint64x2_t vaddq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(uint64_t(a[i]) + uint64_t(b[i])); return r; }
static inline uint64x2_t vsubq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(uint64_t(a[i]) - uint64_t(b[i])); return r; }
static inline uint64x2_t vandq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(a[i] & b[i]); return r; }
static inline uint64x2_t vorrq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(a[i] | b[i]); return r; }
static inline uint64x2_t veorq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(a[i] ^ b[i]); return r; }
static inline uint64x2_t vbicq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(a[i] & ~b[i]); return r; }
static inline uint64x2_t vceqq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] == b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcgtq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] > b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcleq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] <= b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcltq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] < b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vcgeq_u64(uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = a[i] >= b[i] ? uint64_t(-1) : uint64_t(0); return r; }
static inline uint64x2_t vbslq_u64(uint64x2_t m, uint64x2_t a, uint64x2_t b) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t((m[i] & uint64_t(a[i])) | (~m[i] & uint64_t(b[i]))); return r; }
static inline uint64x2_t vshlq_n_u64(uint64x2_t a, int n) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(uint64_t(a[i]) << n); return r; }
static inline uint64x2_t vshrq_n_u64(uint64x2_t a, int n) { uint64x2_t r; NEON_EACH(2) r[i] = uint64_t(a[i] >> n); return r; }
static inline uint64x2_t vld1q_u64(const uint64_t *p) { uint64x2_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_u64(uint64_t *p, uint64x2_t a) { memcpy(p, &a, 16); }
static inline uint64x1_t vget_low_u64(uint64x2_t a) { uint64x1_t r; memcpy(&r, &a, 8); return r; }
static inline uint64x1_t vget_high_u64(uint64x2_t a) { uint64x1_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline uint64x2_t vcombine_u64(uint64x1_t a, uint64x1_t b) { uint64x2_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline float32x4_t vdupq_n_f32(float a) { float32x4_t r; NEON_EACH(4) r[i] = a; return r; }
static inline float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NEON_EACH(4) r[i] = float(float(a[i]) + float(b[i])); return r; }
static inline float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NEON_EACH(4) r[i] = float(float(a[i]) - float(b[i])); return r; }
static inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NEON_EACH(4) r[i] = float(float(a[i]) * float(b[i])); return r; }
static inline uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] == b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] > b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] <= b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] < b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; NEON_EACH(4) r[i] = a[i] >= b[i] ? uint32_t(-1) : uint32_t(0); return r; }
static inline float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { float32x4_t r; uint32x4_t x, y; memcpy(&x, &a, 16); memcpy(&y, &b, 16); NEON_EACH(4) x[i] = (m[i] & x[i]) | (~m[i] & y[i]); memcpy(&r, &x, 16); return r; }
static inline float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NEON_EACH(4) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { float32x4_t r; NEON_EACH(4) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline float32x4_t vabsq_f32(float32x4_t a) { float32x4_t r; NEON_EACH(4) r[i] = __builtin_fabsf(a[i]); return r; }
static inline float32x4_t vnegq_f32(float32x4_t a) { float32x4_t r; NEON_EACH(4) r[i] = -a[i]; return r; }
static inline float32x4_t vld1q_f32(const float *p) { float32x4_t r; memcpy(&r, p, 16); return r; }
static inline void vst1q_f32(float *p, float32x4_t a) { memcpy(p, &a, 16); }
static inline float32x2_t vget_low_f32(float32x4_t a) { float32x2_t r; memcpy(&r, &a, 8); return r; }
static inline float32x2_t vget_high_f32(float32x4_t a) { float32x2_t r; memcpy(&r, (const char *)&a + 8, 8); return r; }
static inline float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { float32x4_t r; memcpy(&r, &a, 8); memcpy((char *)&r + 8, &b, 8); return r; }
static inline int8x8_t vtbl2_s8(int8x8x2_t t, int8x8_t x) { int8x8_t r; NEON_EACH(8) { uint8_t j = uint8_t(x[i]); r[i] = j < 8 ? t.val[0][j] : j < 16 ? t.val[1][j - 8] : int8_t(0); } return r; }
#ifdef __aarch64__
static inline int8x16_t vqtbl1q_s8(int8x16_t t, uint8x16_t x) { int8x16_t r; NEON_EACH(16) r[i] = x[i] < 16 ? t[x[i]] : int8_t(0); return r; }
#endif
static inline uint8x8_t vtbl2_u8(uint8x8x2_t t, uint8x8_t x) { uint8x8_t r; NEON_EACH(8) { uint8_t j = uint8_t(x[i]); r[i] = j < 8 ? t.val[0][j] : j < 16 ? t.val[1][j - 8] : uint8_t(0); } return r; }
#ifdef __aarch64__
static inline uint8x16_t vqtbl1q_u8(uint8x16_t t, uint8x16_t x) { uint8x16_t r; NEON_EACH(16) r[i] = x[i] < 16 ? t[x[i]] : uint8_t(0); return r; }
#endif
#undef NEON_EACH

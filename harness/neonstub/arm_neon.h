// The subset of the Arm NEON intrinsics the library uses, with the semantics of the Arm C Language Extensions, written with GNU vector extensions
// so that the library's NEON code path can be compiled, executed symbolically and replayed on this machine (-DTPP_NO_SIMD -DTPP_HAS_NEON).
#pragma once
#include <cstdint>
#include <cstring>
typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef int8_t int8x8_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
static inline uint8x8_t vld1_u8(const uint8_t *p) { uint8x8_t r; std::memcpy(&r, p, 8); return r; }
static inline void vst1_u8(uint8_t *p, uint8x8_t v) { std::memcpy(p, &v, 8); }
static inline uint8x8_t vdup_n_u8(uint8_t x) { return uint8x8_t{x, x, x, x, x, x, x, x}; }
static inline int8x8_t vdup_n_s8(int8_t x) { return int8x8_t{x, x, x, x, x, x, x, x}; }
static inline uint8x8_t vceq_u8(uint8x8_t a, uint8x8_t b) { return (uint8x8_t)(a == b); }
static inline uint8x8_t vceq_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a == b); }
static inline uint8x8_t vcgt_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a > b); }
static inline uint8x8_t vcge_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a >= b); }
static inline uint8x8_t vclt_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a < b); }
static inline uint8x8_t vcle_s8(int8x8_t a, int8x8_t b) { return (uint8x8_t)(a <= b); }
static inline uint8x8_t vand_u8(uint8x8_t a, uint8x8_t b) { return a & b; }
static inline uint8x8_t vorr_u8(uint8x8_t a, uint8x8_t b) { return a | b; }
static inline uint8x8_t veor_u8(uint8x8_t a, uint8x8_t b) { return a ^ b; }
static inline uint8x8_t vbic_u8(uint8x8_t a, uint8x8_t b) { return a & ~b; }
static inline uint8x8_t vmvn_u8(uint8x8_t a) { return ~a; }
static inline uint8x8_t vbsl_u8(uint8x8_t m, uint8x8_t a, uint8x8_t b) { return (m & a) | (~m & b); }
static inline uint64x1_t vreinterpret_u64_u8(uint8x8_t a) { return (uint64x1_t)a; }
static inline uint64x1_t vreinterpret_u64_s8(int8x8_t a) { return (uint64x1_t)a; }
static inline uint8x8_t vreinterpret_u8_u64(uint64x1_t a) { return (uint8x8_t)a; }
static inline uint8x8_t vreinterpret_u8_s8(int8x8_t a) { return (uint8x8_t)a; }
static inline int8x8_t vreinterpret_s8_u8(uint8x8_t a) { return (int8x8_t)a; }
static inline uint64_t vget_lane_u64(uint64x1_t a, int) { uint64_t r; std::memcpy(&r, &a, 8); return r; }

// The few NEON operations the armv8 kernels use, for running them on this machine.
#pragma once
#include <string.h>
#include <math.h>
typedef float float32x4_t __attribute__((vector_size(16)));
static inline float32x4_t vld1q_f32(const float* p) { float32x4_t v; memcpy(&v, p, 16); return v; }
static inline void vst1q_f32(float* p, float32x4_t v) { memcpy(p, &v, 16); }
static inline float32x4_t vld1q_dup_f32(const float* p) { float f = *p; float32x4_t v = {f, f, f, f}; return v; }
static inline float32x4_t vdupq_n_f32(float f) { float32x4_t v = {f, f, f, f}; return v; }
static inline float32x4_t vfmaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) {
	for(int i = 0; i < 4; i++) c[i] = __builtin_fmaf(a[i], b[i], c[i]);
	return c;
}
static inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
static inline float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
#include <stdint.h>
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef double float64x2_t __attribute__((vector_size(16)));
static inline uint32x4_t vdupq_n_u32(uint32_t f) { uint32x4_t v = {f, f, f, f}; return v; }
static inline float32x4_t vld1q_lane_f32(const float* p, float32x4_t v, int lane) { v[lane] = *p; return v; }
static inline float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { float32x4_t v = {a[0], b[0], a[2], b[2]}; return v; }
static inline float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { float32x4_t v = {a[1], b[1], a[3], b[3]}; return v; }
static inline float64x2_t vtrn1q_f64(float64x2_t a, float64x2_t b) { float64x2_t v = {a[0], b[0]}; return v; }
static inline float64x2_t vtrn2q_f64(float64x2_t a, float64x2_t b) { float64x2_t v = {a[1], b[1]}; return v; }

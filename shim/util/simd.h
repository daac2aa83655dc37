#pragma once
#include <cstdint>
#include <immintrin.h>
namespace util {
inline uint64_t cmpeq_int8_simd128(void* p, char c) { return (uint32_t)_mm_movemask_epi8(_mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)p), _mm_set1_epi8(c))); }
inline uint64_t cmpeq_int8_simd128(void* p, void* q) { return (uint32_t)_mm_movemask_epi8(_mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)p), _mm_loadu_si128((const __m128i*)q))); }
inline uint64_t cmplt_int8_simd128(void* p, char c) { return (uint32_t)_mm_movemask_epi8(_mm_cmplt_epi8(_mm_loadu_si128((const __m128i*)p), _mm_set1_epi8(c))); }
inline uint64_t cmplt_int8_simd128(void* p, void* q) { return (uint32_t)_mm_movemask_epi8(_mm_cmplt_epi8(_mm_loadu_si128((const __m128i*)p), _mm_loadu_si128((const __m128i*)q))); }
#define WIDER(NEW, OLD, N) \
inline uint64_t cmpeq_int8_simd##NEW(void* p, char c) { return cmpeq_int8_simd##OLD(p, c) | cmpeq_int8_simd##OLD((char*)p + N, c) << N; } \
inline uint64_t cmpeq_int8_simd##NEW(void* p, void* q) { return cmpeq_int8_simd##OLD(p, q) | cmpeq_int8_simd##OLD((char*)p + N, (char*)q + N) << N; } \
inline uint64_t cmplt_int8_simd##NEW(void* p, char c) { return cmplt_int8_simd##OLD(p, c) | cmplt_int8_simd##OLD((char*)p + N, c) << N; } \
inline uint64_t cmplt_int8_simd##NEW(void* p, void* q) { return cmplt_int8_simd##OLD(p, q) | cmplt_int8_simd##OLD((char*)p + N, (char*)q + N) << N; }
WIDER(256, 128, 16) WIDER(512, 256, 32)
#undef WIDER
}  // namespace util

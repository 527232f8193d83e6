// C entry points of the reference codec (gfwx.hpp is a pinned copy of the file in reference_app/).
// Built twice: as is ("ref"), and with truncating division for denominators 2, 4, 8 ("refdiv").
#include <cmath>
#include <cstring>
#ifdef VH_DIV
#define GFWX GFWX_DIV
#define NAME(x) refdiv_##x
#else
#define NAME(x) ref_##x
#endif
#include "gfwx.hpp"
#include <new>

extern "C" long long NAME(compress)(const uint8_t *img, const int *p, const int *program, uint8_t *out, size_t out_len) {
    // p: width height layers channels quality chromaScale blockSize filter encoder intent
    try {
        GFWX::Header h(p[0], p[1], p[2], p[3], GFWX::BitDepthAuto, p[4], p[5], p[6], p[7], GFWX::QuantizationScalar, p[8], p[9]);
        std::vector<uint32_t> buf(out_len / 4);
        const uint8_t *src = img;
        long long n = GFWX::compress(src, h, reinterpret_cast<uint8_t *>(buf.data()), buf.size() * 4, program, 0, 0);
        if (n > 0) memcpy(out, buf.data(), n);
        return n;
    } catch (const std::bad_alloc &) { return -100; }
}

// data: complete stream with header. Returns the codec's result.
extern "C" long long NAME(decompress)(const uint8_t *data, size_t size, int downsampling, int test, uint8_t *img) {
    try {
        std::vector<uint32_t> buf(size / 4 + 1);
        memcpy(buf.data(), data, size / 4 * 4);
        GFWX::Header h;
        uint8_t *dst = img;
        return GFWX::decompress(dst, h, reinterpret_cast<const uint8_t *>(buf.data()), size / 4 * 4, downsampling, test != 0);
    } catch (const std::bad_alloc &) { return -100; }
}

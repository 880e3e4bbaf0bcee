// Reference splitter: the documented rolling checksum in closed form, evaluated
// from scratch over the 64 byte window at every position.
#include <stdint.h>
#include <stddef.h>
#include <string.h>

static uint32_t digest(const uint8_t *chunk, size_t pos)
{
    // checksum after chunk[0..pos] (bytes before the chunk count as zero)
    uint32_t a = 0, b = 0;
    size_t lo = pos >= 63 ? pos - 63 : 0;
    for (size_t i = lo; i <= pos; i++) {
        a += chunk[i];
        b += chunk[i] * (uint32_t)(pos - i + 1);
    }
    a += 64 * 31;
    b += 64 * 63 * 31;
    return (a << 16) | (b & 0xffff);
}

// out: pairs (length, extra ones); returns number of chunks
size_t ref_split(const uint8_t *d, size_t n, unsigned bits, uint32_t *out, size_t maxout)
{
    size_t maxblob = (size_t)4 << bits, p = 0, k = 0;
    uint32_t mask = (uint32_t)(((uint64_t)1 << bits) - 1);
    while (p < n && k < maxout) {
        size_t lim = n - p < maxblob ? n - p : maxblob, i;
        uint32_t ones = 0;
        for (i = 0; i < lim; i++) {
            uint32_t g = digest(d + p, i);
            if ((g & mask) == mask) {
                uint64_t h = (uint64_t)g >> bits >> 1;
                while (h & 1) { ones++; h >>= 1; }
                i++;
                break;
            }
        }
        out[2 * k] = i;
        out[2 * k + 1] = ones;
        k++;
        p += i;
    }
    return k;
}

// find a 64 byte window whose checksum ends a chunk with at least min extra ones
int ref_window(uint64_t seed, unsigned bits, unsigned min, uint8_t *out)
{
    uint8_t w[64];
    uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1;
    uint32_t mask = (uint32_t)(((uint64_t)1 << bits) - 1);
    for (int i = 0; i < 64; i++) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        w[i] = x >> 24;
    }
    if (bits + 1 + min > 25)
        min = bits >= 24 ? 0 : 24 - bits;
    // random stream, rolled; candidates are confirmed with digest()
    uint32_t a = 64 * 31, b = 64 * 63 * 31;
    for (int i = 0; i < 64; i++) {
        a += w[i];
        b += w[i] * (uint32_t)(64 - i);
    }
    for (long t = 0; t < 100000000; t++) {
        if (t % 8 == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; }
        uint8_t add = x >> (8 * (t % 8)), drop = w[t % 64];
        w[t % 64] = add;
        a += add - drop;
        b += a - 64 * 31 - 64 * drop;
        uint32_t g = (a << 16) | (b & 0xffff);
        if ((g & mask) != mask)
            continue;
        uint64_t h = (uint64_t)g >> bits >> 1;
        unsigned ones = 0;
        while (h & 1) { ones++; h >>= 1; }
        if (ones >= min) {
            for (int i = 0; i < 64; i++)
                out[i] = w[(t + 1 + i) % 64];
            return digest(out, 63) == g ? (int)ones + 1 : -1000;
        }
    }
    return 0;
}

// records: the name splitter used for directories.  Returns for each record
// 0: no split, 1: forced, 2+n: split with n extra ones
void ref_records(const uint8_t *d, const uint32_t *lens, size_t n, unsigned bits, uint32_t *out)
{
    // window history since the last split
    static uint8_t hist[1 << 24];
    size_t h = 0, size = 0, max = (size_t)4 << bits;
    uint32_t mask = (uint32_t)(((uint64_t)1 << bits) - 1);
    for (size_t r = 0; r < n; r++) {
        out[r] = 0;
        for (uint32_t i = 0; i < lens[r]; i++) {
            hist[h] = d[i];
            uint32_t g = digest(hist, h);
            h++;
            if ((g & mask) == mask) {
                uint64_t q = (uint64_t)g >> bits >> 1;
                uint32_t ones = 0;
                while (q & 1) { ones++; q >>= 1; }
                out[r] = 2 + ones;
                break;
            }
        }
        d += lens[r];
        if (out[r]) { h = 0; size = 0; }
        size += lens[r];
        if (size > max) {
            h = 0; size = 0;
            if (!out[r]) out[r] = 1;
        }
    }
}

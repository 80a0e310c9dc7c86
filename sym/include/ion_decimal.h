#pragma once
// decimal notation of |d| with prec digits after the point, rounded like the real library
// (half to even on the exact value) up to three digits; returns the number of characters
static inline unsigned long ion_fixed_decimal(double d, int prec, char* out) {
    unsigned long bits; __builtin_memcpy(&bits, &d, 8);
    bits &= ~0ul >> 1;
    double a; __builtin_memcpy(&a, &bits, 8);
    unsigned long q = 1; for (int k = 0; k < prec; ++k) q *= 10;
    unsigned long n;
    if (prec <= 3) {
        long ex = (long)(bits >> 52); unsigned long m = bits & ((1ul << 52) - 1);
        if (ex) m |= 1ul << 52; else ex = 1;
        long s = 1075 - ex;
        if (s <= 0) n = (unsigned long)a * q;
        else if (s >= 64) n = 0;
        else { n = m * q; unsigned long rem = n & ((1ul << s) - 1), half = 1ul << (s - 1); n >>= s; if (rem > half || (rem == half && (n & 1))) ++n; }
    } else n = (unsigned long)(a * (double)q + 0.5);
    unsigned long whole = n / q, frac = n % q;
    char t[80]; unsigned long i = sizeof t;
    for (int k = 0; k < prec; ++k) { t[--i] = (char)('0' + frac % 10); frac /= 10; }
    if (prec) t[--i] = '.';
    do { t[--i] = (char)('0' + whole % 10); whole /= 10; } while (whole);
    unsigned long len = sizeof t - i;
    __builtin_memcpy(out, t + i, len);
    return len;
}

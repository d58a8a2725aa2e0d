// The bit scans of Visual C++, restated for this platform's 64 bit unsigned long: index of the lowest / highest set bit, result zero when there is none.
#pragma once
inline unsigned char _BitScanForward(unsigned long *i, unsigned long v) { if (!v) return 0; *i = (unsigned long)__builtin_ctzl(v); return 1; }
inline unsigned char _BitScanReverse(unsigned long *i, unsigned long v) { if (!v) return 0; *i = 63ul - (unsigned long)__builtin_clzl(v); return 1; }

"""C++ helpers for the fixed-point filters, and an independent windowed-sinc design."""
CPP = r"""
typedef __int128 i128;
static i64 sx(u64 v,int w){ u64 m=1ull<<(w-1); v&=(m<<1)-1; return (i64)(v^m)-(i64)m; }
static u64 mk(i64 v,int w){ return (u64)v & ((1ull<<w)-1); }
static i64 fsh(i128 v,int s){ return (i64)(v>>s); }          // floor
"""


def firwin_hamming(n, cutoff, lowpass=True):
    """Hamming-windowed sinc, cutoff in cycles per sample, unity gain at DC (lowpass) or Nyquist (highpass)."""
    from math import pi, sin, cos
    def sinc(x):
        return 1.0 if x == 0 else sin(pi * x) / (pi * x)
    a = (n - 1) / 2
    fc = 2 * cutoff
    out = []
    for k in range(n):
        t = k - a
        h = fc * sinc(fc * t) if lowpass else sinc(t) - fc * sinc(fc * t)
        w = 1.0 if n == 1 else 0.54 - 0.46 * cos(2 * pi * k / (n - 1))
        out.append(h * w)
    s = sum(out) if lowpass else sum(h * cos(pi * (k - a)) for k, h in enumerate(out))
    return [h / s for h in out]

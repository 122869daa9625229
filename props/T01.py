"""CrcAlgorithm/CrcRegister: every parameter set, message and split at small widths, and every catalogued algorithm, against polynomial long division."""
import itertools
from mc.runner import PyCfg

ASSUMPTIONS = ["the polynomial is given with its leading term (degree = width), as a sequence of exponents or as the usual integer mask (reflected for LSB-first algorithms)",
               "mirroring an algorithm is judged for initial values and output masks that are their own mirror image",
               "the inversion identity of the module documentation is judged for polynomials with a constant term and no output mask"]


def rev(v, n):
    return int(format(v, f"0{n}b")[::-1], 2) if n else 0


def divide(bits, w, poly, reg):
    """remainder of (reg * x^len + message * x^w) by poly; poly includes x^w; reg most significant first"""
    v = reg << len(bits)
    m = 0
    for b in bits:
        m = m << 1 | b
    v ^= m << w
    for i in range(len(bits) + w - 1, w - 1, -1):
        if v >> i & 1:
            v ^= poly << (i - w)
    return v


def expected(w, poly, lsb, lsbd, seed, mask, word, n, value=None):
    reg = seed if value is None else value ^ mask
    order = range(n) if (lsb if lsbd is None else lsbd) else range(n - 1, -1, -1)
    bits = [word >> i & 1 for i in order]
    if lsb:
        return rev(divide(bits, w, poly, rev(reg, w)), w) ^ mask
    return divide(bits, w, poly, reg) ^ mask


def exps(poly):
    return tuple(i for i in range(poly.bit_length() - 1, -1, -1) if poly >> i & 1)


def sweep(widths, maxn, nseeds):
    def run(tier):
        from amlib.test.crc import CrcAlgorithm, CrcRegister
        st = tr = 0
        viol = {}

        def bad(key, text):
            viol.setdefault(key, f"{key}: {text}")
        samples = []
        for w in widths:
            full = (1 << w) - 1
            vals = sorted({0, full, 1, 1 << (w - 1), 0x2d & full}) if nseeds == 0 else range(full + 1)
            for low in range(full + 1):
                poly = 1 << w | low
                for lsb, lsbd in itertools.product((False, True), (None, False, True)):
                    for seed, mask in itertools.product(vals, sorted({0, full, 0x5 & full})):
                        par = f"width={w} poly={poly:#x} lsbFirst={lsb} lsbFirstData={lsbd} seed={seed} xorMask={mask}"
                        try:
                            kw = dict(seed=seed, lsbFirst=lsb, lsbFirstData=lsbd, xorMask=mask)
                            a = CrcAlgorithm(w, exps(poly), **kw)
                            b = CrcAlgorithm(w, rev(low, w) if lsb else low, **kw)
                            reg, again = CrcRegister(a), CrcRegister(a)
                        except Exception as e:
                            bad("a legal parameter set is refused", f"{par}: {type(e).__name__} {e}")
                            continue
                        st += 1
                        residues = set()
                        for n in range(maxn + 1):
                            for word in range(1 << n):
                                tr += 1
                                e = expected(w, poly, lsb, lsbd, seed, mask, word, n)
                                try:
                                    got = a.calcWord(word, n)
                                    g2 = b.calcWord(word, n)
                                    if got != e:
                                        bad("checksum differs from polynomial division", f"{par} word={word:#x}/{n}: {got:#x}, expected {e:#x}")
                                    if g2 != e:
                                        bad("polynomial given as integer", f"{par} word={word:#x}/{n}: {g2:#x}, expected {e:#x}")
                                    # every split
                                    lsbd_ = lsb if lsbd is None else lsbd
                                    for k in range(n + 1):
                                        first, second = (word & ((1 << k) - 1), word >> k) if lsbd_ else (word >> (n - k), word & ((1 << (n - k)) - 1))
                                        v = a.calcWord(second, n - k, a.calcWord(first, k))
                                        again.takeWord(first, k)
                                        mid = again.getValue()
                                        again.takeWord(second, n - k)
                                        f = again.getFinalValue()
                                        if v != e or f != e:
                                            bad("split message", f"{par} word={word:#x}/{n} after {k}: {v:#x} / {f:#x}, expected {e:#x}")
                                        if again.getValue() != e ^ mask or mid != expected(w, poly, lsb, lsbd, seed, mask, first, k) ^ mask:
                                            bad("register value", f"{par} word={word:#x}/{n}")
                                        if str(again) != format(e ^ mask, f"0{w}b"):
                                            bad("register text", f"{par}: {again}")
                                        again.reset()
                                        if again.getValue() != seed:
                                            bad("reset", f"{par}: {again.getValue():#x}")
                                    # residue: the checksum as transmitted, high-order coefficient first
                                    reg.reset()
                                    for i in (range(n) if lsbd_ else range(n - 1, -1, -1)):
                                        reg.takeBit(word >> i & 1)
                                    for i in (range(w) if lsb else range(w - 1, -1, -1)):
                                        reg.takeBit(e >> i & 1)
                                    residues.add(reg.getValue())
                                except Exception as x:
                                    bad("exception", f"{par} word={word:#x}/{n}: {type(x).__name__} {x}")
                        if len(residues) > 1:
                            bad("no fixed residue", f"{par}: {sorted(residues)}")
                        if mask == 0 and residues - {0}:
                            bad("residue is not zero without output mask", f"{par}: {sorted(residues)}")
                        if rev(seed, w) == seed and rev(mask, w) == mask:
                            r = a.reflect()
                            for word in range(1 << maxn):
                                e = rev(expected(w, poly, lsb, lsbd, seed, mask, word, maxn), w)
                                g = r.calcWord(rev(word, maxn), maxn)
                                if g != e:
                                    bad("mirrored algorithm", f"{par} word={word:#x}: {g:#x}, expected {e:#x}")
                        if low & 1 and not mask and lsbd is None:
                            r = a.reverse().reflect()
                            for word in range(full + 1):
                                if r.calcWord(a.calcWord(word, w, 0), w, 0) != word:
                                    bad("inversion", f"{par} word={word:#x}")
                        if len(samples) < 5 and low == 3:
                            samples.append(f"{par}: checksum of the {maxn}-bit zero word {e:#x}")
        return dict(states=st, transitions=tr, validated=tr, samples=samples, violations=sorted(viol.items()))
    return run


# name, width, polynomial, initial value, reflected, output mask: from the published catalogues, not from the module
CATALOG = {
    "CRC32": (32, 0x04C11DB7, 0xFFFFFFFF, True, 0xFFFFFFFF), "CRC16": (16, 0x8005, 0, True, 0), "CRC16_USB": (16, 0x8005, 0xFFFF, True, 0xFFFF),
    "CRC_CCITT": (16, 0x1021, 0xFFFF, False, 0), "CRC_HDLC": (16, 0x1021, 0xFFFF, True, 0xFFFF), "CRC8_SMBUS": (8, 0x07, 0, False, 0),
    "CRC24": (24, 0x864CFB, 0xB704CE, False, 0), "CRC15": (15, 0x4599, 0, False, 0), "CRC32C": (32, 0x1EDC6F41, 0xFFFFFFFF, True, 0xFFFFFFFF),
    "CRC5_USB": (5, 0x05, 0x1F, True, 0x1F), "CRC64": (64, 0x1B, 0, True, 0),
}


def catalog(tier):
    import zlib
    from amlib.test import crc
    viol = {}
    st = tr = 0

    def bad(key, text):
        viol.setdefault(key, f"{key}: {text}")
    extra = {f"user{w}_{'lsb' if lsb else 'msb'}_{seed:x}": (w, low, seed, lsb, mask) for w, low in ((64, 0x42F0E1EBA9EA3693), (40, 0x4820009), (33, 0x1))
             for lsb in (False, True) for seed, mask in (((1 << w) - 1, (1 << w) - 1), (1 << (w - 1) | 5, 1))}
    for name, (w, low, seed, lsb, mask) in {**CATALOG, **extra}.items():
        a = crc.CrcAlgorithm(w, exps(1 << w | low), seed=seed, lsbFirst=lsb, xorMask=mask) if name in extra else getattr(crc, name, None)
        if a is None:
            bad("missing", name)
            continue
        st += 1
        msgs = [""] + [chr(c) for c in range(256)] + [chr(c) + chr(e) for c in range(0, 256, 1 if tier == "thorough" else 17) for e in range(0, 256, 5)] + ["123456789"]
        for s in msgs:
            tr += 1
            bits = [ord(c) >> i & 1 for c in s for i in (range(8) if lsb else range(7, -1, -1))]
            e = divide(bits, w, 1 << w | low, rev(seed, w) if lsb else seed)
            e = (rev(e, w) if lsb else e) ^ mask
            try:
                g = a.calcString(s)
                r = crc.CrcRegister(a)
                for c in s:
                    r.takeString(c)
                g2 = r.getFinalValue()
                k = len(s) // 2
                g3 = a.calcString(s[k:], a.calcString(s[:k]))
            except Exception as x:
                bad("exception", f"{name} {s!r}: {type(x).__name__} {x}")
                continue
            if not g == g2 == g3 == e:
                bad(name, f"{s!r}: {g:#x} / {g2:#x} / {g3:#x}, expected {e:#x}")
            if name == "CRC32" and g != zlib.crc32(s.encode("latin-1")):
                bad(name, f"{s!r} differs from zlib")
    return dict(states=st, transitions=tr, validated=tr, samples=[f"{k}: {v}" for k, v in list(CATALOG.items())[:4]], violations=sorted(viol.items()))


def configs(tier):
    out = [PyCfg("width1_2", sweep([1, 2], 5, 1)), PyCfg("width3", sweep([3], 5, 1)), PyCfg("width4", sweep([4], 4, 0)), PyCfg("catalog", catalog)]
    if tier == "thorough":
        out += [PyCfg("t_width3_7", sweep([3], 7, 1)), PyCfg("t_width4_6", sweep([4], 6, 0)), PyCfg("t_width5", sweep([5], 5, 0)), PyCfg("t_width6", sweep([6], 3, 0))]
    return out

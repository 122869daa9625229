"""bits: every operation on every short bit sequence, in every construction form, against plain lists of bits."""
import itertools
from mc.runner import PyCfg

ASSUMPTIONS = ["sequences of up to 6 (pairs: 4, thorough 9 / 5) bits exhaustively, and patterns (all zeros, all ones, one bit set or "
               "clear at every place, alternating, leading and trailing runs) of 7 to 40 (thorough 200) bits; slice steps other than one and single indices outside "
               "the sequence are unspecified and not judged"]


class Rec:
    def __init__(self):
        self.n = 0
        self.states = 0
        self.viol = {}
        self.samples = []

    def eq(self, key, what, got, want):
        self.n += 1
        if type(got) is bool:
            got = int(got)
        if got != want and key not in self.viol:
            self.viol[key] = f"{what}: got {got!r}, expected {want!r}"

    def call(self, key, what, fn, want):
        try:
            got = fn()
        except Exception as e:
            got = f"raised {type(e).__name__}: {e}"
        self.eq(key, what, got, want)
        if len(self.samples) < 3 and self.n % 5003 == 0:
            self.samples.append(f"{what} -> {got!r}")

    def result(self):
        return dict(states=self.states, transitions=self.n, samples=self.samples,
                    violations=list(self.viol.items()))


def seqs(maxlen):
    for n in range(maxlen + 1):
        yield from itertools.product((0, 1), repeat=n)


def val(l):
    return sum(b << i for i, b in enumerate(l))


def L(b):
    """The observable content of a bit sequence: its length and its bits by position."""
    n = len(b)
    return [n] + [b[i] for i in range(n)]


def W(l):
    return [len(l)] + list(l)


def forms(bits, l):
    """All construction forms denoting the list l: (description, thunk)."""
    n, v = len(l), val(l)
    s = "".join(str(x) for x in reversed(l))
    out = [("from_int(v,n)", lambda: bits.from_int(v, n)), ("bits(v,n)", lambda: bits(v, n)),
           ("from_int masked", lambda: bits.from_int(v | (1 << n) | (5 << (n + 2)), n)),
           ("from_int negative", lambda: bits.from_int(v - (1 << n), n)),
           ("str", lambda: bits(s)), ("from_str", lambda: bits.from_str(s)),
           ("str with separators", lambda: bits(" " + "_".join(s) + "\t")),
           ("list", lambda: bits(list(l))), ("tuple", lambda: bits(tuple(l))), ("iterator", lambda: bits(iter(l))),
           ("from_iter", lambda: bits.from_iter(x for x in l)), ("truthy", lambda: bits([7 * x for x in l])), ("even truthy", lambda: bits(iter([2 * x for x in l]))),
           ("bytes", lambda: bits(v.to_bytes(n // 8 + 2, "little"), n)), ("bytearray", lambda: bits(bytearray(v.to_bytes(n // 8 + 3, "little")), n)),
           ("bytes big", lambda: bits(v.to_bytes(n // 8 + 2, "big"), n, byteorder="big")),
           ("from_bytes", lambda: bits.from_bytes(v.to_bytes(n // 8 + 2, "little"), n)),
           ("from_bytes big", lambda: bits.from_bytes(v.to_bytes(n // 8 + 2, "big"), n, byteorder="big")),
           ("from_bytes excess", lambda: bits.from_bytes((v | (0x2b << n)).to_bytes(n // 8 + 4, "little"), n)),
           ("memoryview", lambda: bits(memoryview(v.to_bytes(n // 8 + 2, "little")), n)),
           ("bits of bits", lambda: bits(bits(v, n))), ("bits resized", lambda: bits(bits(v | (1 << n), n + 1), n))]
    k = next((k for k in range(n, -1, -1) if k and l[k - 1]), 0)     # leading zeros stripped, then extended
    out.append(("bits extended", lambda: bits(bits(v, k), n)))
    if s:
        out.append(("plus str", lambda: bits("+" + s)))
    if n == v.bit_length():
        out += [("int", lambda: bits(v)), ("from_int", lambda: bits.from_int(v))]
    return out


def patterns(n):
    out = [[0] * n, [1] * n, [i & 1 for i in range(n)], [~i & 1 for i in range(n)], [(i * i + 1) % 3 % 2 for i in range(n)]]
    for k in range(n):
        out += [[int(i == k) for i in range(n)], [int(i != k) for i in range(n)], [int(i < k) for i in range(n)], [int(i >= k) for i in range(n)]]
    return [list(x) for x in sorted(set(map(tuple, out)))]


def lengths(tier):
    return list(range(7, 19)) + [23, 24, 25, 31, 32, 33, 40] + ([48, 63, 64, 65, 127, 128, 129, 200] if tier == "thorough" else [])


def longs(tier):
    return single_ops((l for n in lengths(tier) for l in patterns(n)), lambda n: sorted({x for c in (0, 1, 8, n // 2, n - 8, n - 1, n) for x in (c, -c) if c >= 0}))


def singles(tier):
    return single_ops(seqs(9 if tier == "thorough" else 6), lambda n: range(-n - 2, n + 3))


def single_ops(sequences, indices):
    from amlib.utils.bits import bits
    r = Rec()
    for l in sequences:
        l = list(l)
        n, v = len(l), val(l)
        s = "".join(str(x) for x in reversed(l))
        r.states += 1
        for d, f in forms(bits, l):
            r.call("construct " + d, f"{d} of {l}", lambda: L(f()), W(l))
        b = bits(v, n)
        r.call("len", f"len {l}", lambda: len(b), n)
        r.call("bool", f"bool {l}", lambda: bool(b), int(n > 0))
        for d, f in (("int", lambda: int(b)), ("to_int", lambda: b.to_int())):
            r.call(d, f"{d} {l}", f, v)
        for d, f in (("str", lambda: str(b)), ("to_str", lambda: b.to_str())):
            r.call(d, f"{d} {l}", f, s)
        r.call("repr", f"repr {l}", lambda: L(eval(repr(b), {"bits": bits})), W(l))
        for o in ("little", "big"):
            r.call("to_bytes", f"to_bytes {o} {l}", lambda: list(b.to_bytes(o)), list(v.to_bytes((n + 7) // 8, o)))
        r.call("bytes", f"bytes {l}", lambda: list(bytes(b)), list(v.to_bytes((n + 7) // 8, "little")))
        r.call("iter", f"iter {l}", lambda: list(b), l)
        r.call("reversed", f"reversed {l}", lambda: L(b.reversed()), W(l[::-1]))
        for i in range(-n, n):
            r.call("index", f"{l}[{i}]", lambda: b[i], l[i])
        idx = [None] + list(indices(n))
        for i in idx:
            for j in idx:
                r.call("slice", f"{l}[{i}:{j}]", lambda: L(b[i:j]), W(l[i:j]))
                r.call("slice", f"{l}[{i}:{j}:1]", lambda: L(b[i:j:1]), W(l[i:j]))
        for k in range(4):
            r.call("repeat", f"{l}*{k}", lambda: L(b * k), W(l * k))
            r.call("repeat", f"{k}*{l}", lambda: L(k * b), W(l * k))
        r.call("unchanged", f"{l} after all operations", lambda: L(b), W(l))
        for junk in (None, 1.5, object(), b"x", "2", "-1", -1):
            r.call("equality with a non-sequence", f"{l} == {junk!r}", lambda: b == junk, 0)
            r.call("inequality with a non-sequence", f"{l} != {junk!r}", lambda: b != junk, 1)
    return r.result()


def pairs(tier):
    N = 5 if tier == "thorough" else 4
    return pair_ops((a, c) for a in seqs(N) for c in seqs(N))


def long_pairs(tier):
    def few(n):
        return [[0] * n, [1] * n, [i & 1 for i in range(n)], [int(i == n - 1) for i in range(n)], [int(i == 0) for i in range(n)], [(i * i + 1) % 3 % 2 for i in range(n)]]
    ns = [0, 1, 7, 8, 9, 16, 17, 32, 33] + ([63, 64, 65, 130] if tier == "thorough" else [])
    return pair_ops((a, c) for n in ns for k in ns for a in few(n) for c in few(k))


def pair_ops(sequences):
    from amlib.utils.bits import bits
    r = Rec()
    for a, c in sequences:
        a, c = list(a), list(c)
        r.states += 1
        A, n = bits(val(a), len(a)), max(len(a), len(c))
        pa, pc = a + [0] * (n - len(a)), c + [0] * (n - len(c))
        exp = {"add": a + c, "and": [x & y for x, y in zip(pa, pc)], "or": [x | y for x, y in zip(pa, pc)],
               "xor": [x ^ y for x, y in zip(pa, pc)]}
        s = "".join(str(x) for x in reversed(c))
        operands = [("bits", bits(val(c), len(c))), ("list", list(c)), ("tuple", tuple(c)), ("str", s)]
        if val(c).bit_length() == len(c):
            operands.append(("int", val(c)))
        for form, C in operands:
            for op, f in (("add", lambda: A + C), ("and", lambda: A & C), ("or", lambda: A | C), ("xor", lambda: A ^ C)):
                r.call(op, f"{a} {op} {c} as {form}", lambda: L(f()), W(exp[op]))
            r.call("eq", f"{a} == {c} as {form}", lambda: A == C, int(a == c))
            r.call("ne", f"{a} != {c} as {form}", lambda: A != C, int(a != c))
        A2 = bits(val(a), len(a))
        reflected = [("list", list(c)), ("tuple", tuple(c)), ("str", s)]
        if val(c).bit_length() == len(c):
            reflected.append(("int", val(c)))
        for form, C in reflected:
            for op, f, e in (("radd", lambda: C + A2, c + a), ("rand", lambda: C & A2, exp["and"]),
                             ("ror", lambda: C | A2, exp["or"]), ("rxor", lambda: C ^ A2, exp["xor"])):
                r.call(op, f"{c} as {form} {op} {a}", lambda: L(f()), W(e))
        r.call("operand unchanged", f"{a} after operations with {c}", lambda: L(A) + L(operands[0][1]), W(a) + W(c))
    return r.result()


def immutability(tier):
    """Sequences of operations: no operation changes a previously built object (shared objects, aliasing)."""
    from amlib.utils.bits import bits
    r = Rec()
    ops = [("a+b", lambda a, b: a + b, lambda a, b: a + b),
           ("a[1:]", lambda a, b: a[1:], lambda a, b: a[1:]),
           ("a[:-1]", lambda a, b: a[:-1], lambda a, b: a[:-1]),
           ("rev", lambda a, b: a.reversed(), lambda a, b: a[::-1]),
           ("a|b", lambda a, b: a | b, lambda a, b: [x | y for x, y in itertools.zip_longest(a, b, fillvalue=0)]),
           ("a^b", lambda a, b: a ^ b, lambda a, b: [x ^ y for x, y in itertools.zip_longest(a, b, fillvalue=0)]),
           ("a*2", lambda a, b: a * 2, lambda a, b: a * 2)]
    depth = 4 if tier == "thorough" else 3
    for a in seqs(3):
        for prog in itertools.product(range(len(ops)), repeat=depth):
            r.states += 1
            objs, model = [bits(val(a), len(a)), bits(list(a))], [list(a), list(a)]
            for o in prog:
                try:
                    objs.append(ops[o][1](objs[-1], objs[-2]))
                except Exception as e:
                    r.eq("program", f"{a} {[ops[x][0] for x in prog]}", f"raised {e!r}", "result")
                    break
                model.append(ops[o][2](model[-1], model[-2]))
            else:
                for x, y in zip(objs, model):
                    r.call("program", f"{a} {[ops[k][0] for k in prog]}", lambda: L(x), W(y))
    return r.result()


def configs(tier):
    return [PyCfg("singles", singles), PyCfg("longs", longs), PyCfg("pairs", pairs, cost=2), PyCfg("long_pairs", long_pairs), PyCfg("programs", immutability)]

"""OneHotMultiplexer against selection / OR / pass-back written from its documentation."""
from mc.runner import Cfg

ASSUMPTIONS = ["at most one valid at a time (documented precondition); multiplexed fields are unspecified when none is valid",
               "OR fields are judged as the OR of all inputs' current values"]


def gen(n, mw, ow, pw, named, var=0):
    body = ["int sel=ch(%d);" % (n + 1)]
    if mw > 3:          # wide: two values per input, distinct between inputs
        body.append("int x=ch(4);")
        for i in range(n):
            a, b = ((i + 1) * 0x9E3779B97F4A7C15 >> 9) & ((1 << mw) - 1), ((i + 3) * 0x9E3779B97F4A7C15 >> 11) & ((1 << ow) - 1)
            body.append(f"d.v{i}=sel=={i}; d.m{i}= x&1? {a}ull : {a ^ ((1 << mw) - 1)}ull; d.k{i}=(x>>{i & 1})&1; d.o{i}= x&2 ? {b & ~(b << 1)}ull : {1 << (i % ow)}ull;")
    for i in range(0 if mw > 3 else n):
        body.append(f"d.v{i}=sel=={i}; d.m{i}=ch({1 << mw}); d.k{i}=ch(2); d.o{i}=ch({1 << ow});")
    body.append(f"d.pin={"ch(%d)" % (1 << pw) if pw < 9 else "ch(2) ? 0x5aa5c3f0%sull : 0xa55a3c0f%sull" % (("1", "e") if pw > 32 else ("", ""))}; d.pin&={(1 << pw) - 1}ull; d.comb();")
    for i in range(n):
        body.append(f'if(sel=={i}){{ CHECK(d.m==d.m{i} && d.k==d.k{i}, "muxed fields %d,%d, expected those of input {i}",(int)d.m,(int)d.k); COVER("sel{i}"); }}' if var != 2 else f'if(sel=={i}) COVER("sel{i}");')
        if var == 1:
            body.append(f'if(sel=={i}) CHECK(d.o==d.o{i}, "muxed field %d, expected that of input {i}",(int)d.o);')
        if var != 2: body.append(f'CHECK(d.p{i}==d.pin, "pass-back field of input {i} is %d, expected %d",(int)d.p{i},(int)d.pin);')
    orv = "|".join(f"d.o{i}" for i in range(n))
    if var != 1: body.append(f'CHECK(d.o==({orv}), "OR field %d, expected %d",(int)d.o,(int)({orv}));')
    if var == 2:
        for f in "mk":
            o = "|".join(f"d.{f}{i}" for i in range(n))
            body.append(f'CHECK(d.{f}==({o}), "OR field {f} is %d, expected %d",(int)d.{f},(int)({o}));')
    vv = "|".join(f"d.v{i}" for i in range(n))
    body.append(f'CHECK(d.v==({vv}), "valid output %d, expected %d",(int)d.v,(int)({vv}));')
    return ("struct Mon{u8 x;};\nstatic int init(D&d,Mon&m,Ch&ch){return OK_;}\nstatic int step(D&d,Mon&m,Ch&ch){\n"
            + "\n".join(body) + "\ntick(d); return OK_;}\n")


def configs(tier):
    from amaranth import Signal
    from amlib.utils import OneHotMultiplexer

    def mk(n, mw, ow, pw, named, vname, how, var=0):
        class If:
            def __init__(self):
                setattr(self, vname, Signal(name=vname))
                self.data, self.kind, self.ored, self.back = Signal(mw), Signal(), Signal(ow), Signal(pw)

        def build():
            f = (lambda s: s) if named else (lambda s: (lambda itf: getattr(itf, s)))
            kw = {} if vname == "valid" else {"valid_field": vname}
            x = OneHotMultiplexer(interface_type=If, **[dict(mux_signals=[f("data"), f("kind")], or_signals=[f(vname), f("ored")], pass_signals=[f("back")]),
                                                            dict(mux_signals=(f("ored"), f("kind"), f("data")), or_signals=(f(vname),), pass_signals=(f("back"),)),
                                                            dict(or_signals=[f("kind"), f("ored"), f(vname), f("data")])][var], **kw)
            ifs = [If() for _ in range(n)]
            if how == "add_interfaces":
                x.add_interfaces(ifs)
            else:
                for i in ifs:
                    getattr(x, how)(i)
            ins, outs = {"pin": x.output.back}, {"m": x.output.data, "k": x.output.kind, "o": x.output.ored, "v": getattr(x.output, vname)}
            for j, i in enumerate(ifs):
                ins.update({f"v{j}": getattr(i, vname), f"m{j}": i.data, f"k{j}": i.kind, f"o{j}": i.ored})
                outs[f"p{j}"] = i.back
            return x, ins, outs
        return build
    out = []
    shapes = [(1, 2, 2, 1), (2, 2, 2, 2), (3, 2, 1, 1), (4, 1, 1, 1), (5, 1, 1, 1), (2, 32, 16, 32), (6, 8, 8, 8), (8, 16, 4, 33), (9, 33, 9, 4), (1, 8, 8, 16)]
    if tier == "thorough":
        shapes += [(3, 2, 2, 1), (2, 3, 3, 2), (6, 1, 1, 1)]
    for k, (n, mw, ow, pw) in enumerate(shapes):
        for named in (True, False):
            vname = "valid" if named else "strobe"
            how = ("add_interface", "add_input", "add_interfaces")[(k + named) % 3]
            out.append(Cfg(f"n{n}m{mw}o{ow}{vname}", mk(n, mw, ow, pw, named, vname, how), gen(n, mw, ow, pw, named), {}, domains=(),
                           covers=[f"sel{i}" for i in range(n)], ntraces=2, cost=n))
    for var in (1, 2):        # other divisions of the fields into multiplexed, ORed and passed ones
        for n, mw, ow, pw in [(3, 2, 1, 1), (5, 8, 9, 3)]:
            named = var == 1
            vname = "valid" if named else "strobe"
            out.append(Cfg(f"fields{var}_n{n}m{mw}o{ow}", mk(n, mw, ow, pw, named, vname, "add_interface", var), gen(n, mw, ow, pw, named, var), {}, domains=(),
                           covers=[f"sel{i}" for i in range(n)], ntraces=2, cost=n))
    return out

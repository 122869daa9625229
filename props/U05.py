"""synchronize(): every field against a per-field pipeline of target-clock samples."""
from mc.runner import Cfg

ASSUMPTIONS = ["synchronous flip-flop model without metastability; fields of 1 or 2 bits with every value history; wider fields (to 33 bits) and nesting to depth 4 with four data patterns"]


def build_cfg(kind, stages, domain, given):
    """Returns (build, consts, cpp, nfields)."""
    from amaranth import Module, Signal, Record
    from amaranth.hdl.rec import DIR_FANIN, DIR_FANOUT, DIR_NONE
    from amlib.utils import synchronize
    layouts = {
        "wide": [("a", 8), ("b", 16, DIR_FANOUT), ("c", [("d", 1, DIR_FANIN), ("e", [("f", 5), ("g", [("h", 32), ("i", 3, DIR_FANOUT)])]), ("j", 7)]),
                 ("k", 1, DIR_FANOUT), ("l", 24, DIR_FANIN), ("m", 2)],
        "flat": [("a", 1, DIR_FANIN), ("b", 2, DIR_NONE), ("c", 1, DIR_FANOUT)],
        "plainrec": [("x", 2), ("y", 1)],
        "nested": [("p", 1, DIR_FANIN), ("o", 1, DIR_FANOUT),
                   ("n", [("q", 1, DIR_FANIN), ("r", 1, DIR_FANOUT), ("nn", [("s", 1, DIR_FANIN)])])],
    }

    def leaves(rec, path=()):
        for name, shape, direction in rec.layout:
            f = rec[name]
            if hasattr(f, "layout"):
                yield from leaves(f, path + (name,))
            else:
                yield path + (name,), f, direction == DIR_FANOUT

    def build():
        m = Module()
        kw = {}
        if stages is not None:
            kw["stages"] = stages
        if domain != "sync":
            kw["o_domain"] = domain
        if kind.startswith("sig"):
            src = Signal(int(kind[3:]), name="src")
            dst = Signal(int(kind[3:]), name="dst")
        else:
            src = Record(layouts[kind], name="src")
            dst = Record(layouts[kind], name="dst")
        if given:
            kw["output"] = dst
        ret = synchronize(m, src, **kw)
        if given and ret is not dst:
            raise AssertionError("synchronize did not return the caller-provided output")
        ins, outs = {}, {}
        if kind.startswith("sig"):
            ins["i0"], outs["o0"] = src, ret
        else:
            for k, ((pth, s, fan), (_, t, _)) in enumerate(zip(leaves(src), leaves(ret))):
                (ins if not fan else outs)[f"i{k}"] = s
                (outs if not fan else ins)[f"o{k}"] = t
        b = Signal()
        m.d.other += b.eq(~b)
        outs["by"] = b
        return m, ins, outs
    return build


def build_custom(stages, domain, given):
    def build():
        from amaranth import Module, Record, Signal
        from amaranth.lib.cdc import FFSynchronizer
        from amlib.utils.cdc import synchronize
        calls = []

        class Own(Record):
            def _synchronize_(self, m, output, o_domain, stages):
                calls.append((output, o_domain, stages))
                m.submodules += FFSynchronizer(self.v, output.v, o_domain=o_domain, stages=stages)
        m = Module()
        src, dst = Own([("v", 2)], name="src"), Own([("v", 2)], name="dst")
        kw = {}
        if stages is not None:
            kw["stages"] = stages
        if domain != "sync":
            kw["o_domain"] = domain
        if given:
            kw["output"] = dst
        ret = synchronize(m, src, **kw)
        if len(calls) != 1 or calls[0][0] is not ret or (given and ret is not dst) or calls[0][1:] != (domain, stages or 2):
            raise AssertionError("an object with its own synchronization method is not synchronized through it")
        b = Signal()
        m.d.other += b.eq(~b)
        return m, {"i": src.v}, {"o": ret.v, "by": b}
    return build


def configs(tier):
    from amaranth.hdl.rec import DIR_FANOUT
    fields = {"sig1": [(1, 0)], "sig2": [(2, 0)], "flat": [(1, 0), (2, 0), (1, 1)], "plainrec": [(2, 0), (1, 0)],
              "sig8": [(8, 0)], "sig33": [(33, 0)],
              "wide": [(8, 0), (16, 1), (1, 0), (5, 0), (32, 0), (3, 1), (7, 0), (1, 1), (24, 0), (2, 0)],
              "nested": [(1, 0), (1, 1), (1, 0), (1, 1), (1, 0)]}
    out = []
    for kind in fields:
        for stages in (None, 2, 3) + ((4,) if kind in ("sig1", "sig2", "plainrec") or tier == "thorough" else ()):
            for domain in ("sync", "usb"):
                for given in (0, 1):
                    n = stages or 2
                    if stages is None and domain == "usb":
                        continue
                    body, chk = [], []
                    for k, (w, fan) in enumerate(fields[kind]):
                        if kind in ("sig8", "sig33", "wide"):     # one of four patterns for all fields together
                            if not k:
                                body.append("u32 r=ch(4);")
                            body.append(f"d.{'o' if fan else 'i'}{k} = (u64)((r*2654435761ull*{2 * k + 3}ull + r*(r-1)*{k}) >> {k % 5}) & {(1 << w) - 1}ull;")
                        else:
                            body.append(f"d.{'o' if fan else 'i'}{k}=ch({1 << w});")
                        if fan:
                            chk.append(f'CHECK(d.i{k}==d.o{k}, "output field {k} not passed through: %llx vs %llx",(long long)d.i{k},(long long)d.o{k});')
                        else:
                            chk.append(f'CHECK(d.o{k}==m.p[{k}][0], "field {k} is %llx, expected %llx",(long long)d.o{k},(long long)m.p[{k}][0]); COVERIF(d.o{k}!=d.i{k},"in flight {k}");')
                    shift = "".join(f"for(int s=0;s+1<{n};s++) m.p[{k}][s]=m.p[{k}][s+1]; m.p[{k}][{n - 1}]=d.i{k};"
                                    for k, (w, fan) in enumerate(fields[kind]) if not fan)
                    cpp = ("struct Mon{u64 p[%d][%d];};\nstatic int init(D&d,Mon&m,Ch&ch){return OK_;}\n"
                           "static int step(D&d,Mon&m,Ch&ch){\n for(int k=0;k<2;k++){ %s\n d.comb();\n %s }\n"
                           " int mask=1+ch(3);\n if(mask&1){ %s }\n tick(d,mask); return OK_; }\n"
                           % (len(fields[kind]), n, "".join(body), "\n ".join(chk), shift))
                    if len(fields[kind]) > 3 or kind == "flat":
                        cpp = cpp.replace("k<2", "k<1")
                    out.append(Cfg(f"{kind}_{stages or 'default'}_{domain}{'_out' if given else ''}",
                                   build_cfg(kind, stages, domain, given), cpp, {}, domains=(domain, "other"),
                                   covers=[f"in flight {k}" for k, (w, f) in enumerate(fields[kind]) if not f], ntraces=3,
                                   cost=2 if kind == "nested" else 1))
    # an object that knows how to synchronize itself is asked to do so, with the caller's parameters
    for stages in (None, 3):
        for domain in ("sync", "usb"):
            for given in (0, 1):
                n = stages or 2
                cpp = ("struct Mon{u8 p[%d];};\nstatic int init(D&d,Mon&m,Ch&ch){ for(int i=0;i<%d;i++) m.p[i]=0; return OK_;}\n"
                       "static int step(D&d,Mon&m,Ch&ch){ d.i=ch(4); d.comb(); CHECK(d.o==m.p[0],\"custom field is %%d, expected %%d\",(int)d.o,m.p[0]); COVERIF(d.o!=d.i,\"in flight\");\n"
                       " int mask=1+ch(3); if(mask&1){ for(int s=0;s+1<%d;s++) m.p[s]=m.p[s+1]; m.p[%d]=d.i; } tick(d,mask); return OK_; }\n" % (n, n, n, n - 1))
                out.append(Cfg(f"custom_{stages or 'default'}_{domain}{'_out' if given else ''}", build_custom(stages, domain, given), cpp, {},
                               domains=(domain, "other"), covers=["in flight"], ntraces=3))
    return out

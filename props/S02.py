"""StreamArbiter / StreamMultiplexer against a parked-priority grant model."""
from mc.runner import Cfg

ASSUMPTIONS = ["multiplexer: the documented use has one valid input; when several are valid only the first-added one is forwarded and acknowledged (the code's priority encoder)",
               "inputs are completely free each cycle (also withdrawing words), which includes every legal stream schedule",
               "1 to 5 inputs with free words of at most 2 bits; up to 9 (thorough 16) inputs and 33 bits with two words per input; 40 inputs with every pair of valid ones"]


def words(n, pw):
    """many or wide inputs: two words per input, distinct between inputs"""
    msk = (1 << pw) - 1
    b = ["int k=ch(4);"]
    for i in range(n):
        a = ((i + 1) * 0x9E3779B97F4A7C15 >> 5) & msk
        b.append(f"d.p{i}= k&1 ? {a}ull : {a ^ msk}ull; d.f{i}=(k>>{i & 1})&1; d.l{i}=(k>>{(i >> 1) & 1})&1;")
    return b


def arb(n, pw, ext, wide=False):
    b = words(n, pw) + [f"d.v{i}=ch(2);" for i in range(n)] if wide else []
    if wide and n > 20:     # at most two valid inputs
        b = words(n, pw) + [f"int va=ch({n + 1}), vb=ch({n + 1});"] + [f"d.v{i}= va=={i}||vb=={i};" for i in range(n)]
    for i in range(0 if wide else n):
        b.append(f"d.v{i}=ch(2); d.p{i}=ch({1 << pw}); d.f{i}=ch(2); d.l{i}=ch(2);" + (f"d.x{i}=ch(2);" if ext else ""))
    b.append("d.ready=ch(2); d.comb();")
    b.append("bool any=false; int best=-1;")
    for i in reversed(range(n)):
        b.append(f"if(d.v{i}){{ any=true; best={i}; }}")
    b.append('CHECK(d.idle==!any, "idle=%d although requests=%d",(int)d.idle,any);')
    b.append("bool sending=false;")
    for i in range(n):
        b.append(f'''if(m.cur=={i}){{ sending=d.v{i}; CHECK(d.valid==d.v{i}, "output valid=%d, current input {i} has valid=%d",(int)d.valid,(int)d.v{i});
 if(d.v{i}) CHECK(d.payload==d.p{i}&&d.first==d.f{i}&&d.last==d.l{i}{"&&d.x==d.x%d" % i if ext else ""}, "output word differs from that of current input {i}");
 if(d.v{i}) CHECK(d.r{i}==d.ready, "current input {i} gets ready=%d, consumer has %d",(int)d.r{i},(int)d.ready); COVERIF(d.v{i}&&d.ready,"transfer{i}"); }}
else if(d.v{i}) CHECK(!d.r{i}, "input {i} is acknowledged while input %d is current", m.cur);''')
    b.append("if(!sending && best>=0) m.cur=best; tick(d); return OK_;")
    return "struct Mon{u8 cur;};\nstatic int init(D&d,Mon&m,Ch&ch){return OK_;}\nstatic int step(D&d,Mon&m,Ch&ch){\n" + "\n".join(b) + "}\n"


def mux(n, pw, ext, wide=False):
    b = [f"int vs=ch({1 << n}), sel={n};"] if n <= 20 else [f"u64 vs=(1ull<<ch({n + 1}))|(1ull<<ch({n + 1})); int sel={n};"]
    for i in reversed(range(n)):
        b.append(f"if(vs>>{i}&1) sel={i};")
    if wide:
        b += words(n, pw) + [f"d.v{i}=vs>>{i}&1;" for i in range(n)]
    for i in range(0 if wide else n):
        b.append(f"d.v{i}=vs>>{i}&1; d.p{i}=ch({1 << pw}); d.f{i}=ch(2); d.l{i}=ch(2);" + (f"d.x{i}=ch(2);" if ext else ""))
    b.append(f'd.ready=ch(2); d.comb(); CHECK(d.valid==(sel<{n}), "output valid=%d with {n} inputs, selected %d",(int)d.valid,sel);')
    for i in range(n):
        b.append(f'''if(sel=={i}){{ CHECK(d.payload==d.p{i}&&d.first==d.f{i}&&d.last==d.l{i}{"&&d.x==d.x%d" % i if ext else ""}, "output word differs from that of the valid input {i}");
 CHECK(d.r{i}==d.ready, "valid input {i} gets ready=%d, consumer has %d",(int)d.r{i},(int)d.ready); COVER("transfer{i}"); }}
else if(d.v{i}){{ CHECK(!d.r{i}, "input {i} is acknowledged although its word is not forwarded"); COVER("collision"); }}''')
    b.append("tick(d); return OK_;")
    return "struct Mon{u8 cur;};\nstatic int init(D&d,Mon&m,Ch&ch){return OK_;}\nstatic int step(D&d,Mon&m,Ch&ch){\n" + "\n".join(b) + "}\n"


def configs(tier):
    from amlib.stream import StreamInterface
    from amlib.stream.arbiter import StreamArbiter, StreamMultiplexer

    def mk(cls, n, pw, ext, domain):
        class T(StreamInterface):
            def __init__(self, **kw):
                super().__init__(payload_width=pw, **({"extra_fields": [("x", 1)]} if ext else {}), **kw)

        def build():
            kw = {} if domain == "sync" else {"domain": domain}
            a = cls(stream_type=T, **kw)
            sinks = [T(name=f"s{i}") for i in range(n)]
            for s in sinks:
                (a.add_stream if cls is StreamArbiter else a.add_input)(s)
            o = a.source if cls is StreamArbiter else a.output
            ins, outs = {"ready": o.ready}, {k: o[k] for k in ("valid", "payload", "first", "last")}
            if ext:
                outs["x"] = o.x
            if cls is StreamArbiter:
                outs["idle"] = a.idle
            for i, s in enumerate(sinks):
                ins.update({f"v{i}": s.valid, f"p{i}": s.payload, f"f{i}": s.first, f"l{i}": s.last})
                if ext:
                    ins[f"x{i}"] = s.x
                outs[f"r{i}"] = s.ready
            return a, ins, outs
        return build
    out = []
    sizes = [(1, 2), (2, 2), (3, 1), (4, 1), (5, 1)] + ([(3, 2), (6, 1)] if tier == "thorough" else [])
    for n, pw in sizes:
        for ext in (0, 1):
            if n >= 4 and ext:
                continue
            dom = "usb" if ext else "sync"
            cov = [f"transfer{i}" for i in range(n)]
            doms = (dom,)
            out.append(Cfg(f"arb{n}w{pw}_{dom}", mk(StreamArbiter, n, pw, ext, dom), arb(n, pw, ext), {}, domains=doms, covers=cov, cost=n))
            out.append(Cfg(f"mux{n}w{pw}{'x' if ext else ''}", mk(StreamMultiplexer, n, pw, ext, "sync"), mux(n, pw, ext), {}, domains=(), covers=cov + (["collision"] if n > 1 else [])))
    for n, pw in [(2, 8), (3, 33), (6, 8), (8, 16), (9, 4), (1, 32), (40, 8)] + ([(12, 8), (16, 5)] if tier == "thorough" else []):
        cov = [f"transfer{i}" for i in range(n)]
        out.append(Cfg(f"arb_wide{n}w{pw}", mk(StreamArbiter, n, pw, 0, "sync"), arb(n, pw, 0, True), {}, covers=cov, cost=n))
        out.append(Cfg(f"mux_wide{n}w{pw}", mk(StreamMultiplexer, n, pw, 0, "sync"), mux(n, pw, 0, True), {}, domains=(), covers=cov + (["collision"] if n > 1 else [])))
    return out

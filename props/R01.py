"""Synchronous reset: every block of the library, reset at any moment of any bounded history, against a second copy that was never used."""
import contextlib
import importlib
import io
import math
from mc.runner import Cfg, Broken

ASSUMPTIONS = ["the inputs are free (for blocks with very many input combinations: at rest) in the one cycle of the reset; for blocks with input synchronizers (not reset by design) they are at rest for four cycles, in all of which or only in the last of which reset is asserted",
               "data outputs are compared while the block declares them valid; memories the user can write (RAM contents, LED colours, window functions, convolution sample history) are not expected to be cleared",
               "P input changes before and Q after the reset (P or Q = 0: unbounded), each lasting HOLD cycles; the last one before the reset any part of it; inputs from small alphabets"]

CPP = r"""
struct Mon { u8 ph; u16 n; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  if(!m.ph){
    bool go=ch(2); if(P && !go && m.n>=P) return PRUNE_;
    if(P) m.n++;
    int t= !go ? HOLD : HOLD<=6 ? 1+ch(HOLD) : 1+ch(4)*(HOLD-1)/3;
    CHOOSE
    IDLE_B d.rst_b=1; d.rst_a=0;
    for(int i=0;i<t;i++){ if(i<2) { if(i==0){ SET_A } else { RELEASE_A } } d.comb(); if(go && i==t-1){ bool df=false; DIFF COVERIF(df,"active when reset"); } tick(d,MASK); }
    if(!go) return OK_;
    int late= LATE ? ch(2) : 0;
    if(FREE){ CHOOSE SET_A SET_B } else { IDLE_A IDLE_B }
    for(int i=0;i<REST;i++){ d.rst_a= !late || i==REST-1; d.rst_b=1; d.comb(); tick(d,MASK); }
    d.rst_a=d.rst_b=0; m.ph=1; m.n=0;
    return OK_;
  }
  if(Q && m.n>=Q) return PRUNE_;
  if(Q) m.n++;
  CHOOSE
  for(int i=0;i<HOLD;i++){
    if(i==0){ SET_A SET_B } else if(i==1){ RELEASE_A RELEASE_B }
    d.comb();
    COMPARE
    tick(d,MASK);
  }
  return OK_;
}
"""


_DONE = {}         # building the list takes seconds; the worker processes inherit it


def configs(tier):
    if tier not in _DONE:
        _DONE[tier] = make(tier)
    return _DONE[tier]


def make(tier):
    from amaranth import Module, Signal, ResetInserter
    from amaranth.hdl.ir import Fragment
    out = []
    quick = tier == "quick"
    cache = {}

    def add(prop, name, alpha, P=0, Q=0, hold=1, idle=None, pulse=(), qual=None, skip=(), cov=("active when reset", "activity"), tie=None, ms=20_000_000, late=1, rest=1):
        src = None
        try:
            if prop not in cache:
                with contextlib.redirect_stdout(io.StringIO()):
                    cache[prop] = {c.name: c for c in importlib.import_module("props." + prop).configs("quick") if getattr(c, "build", None)}
            src = cache[prop][name]
        except Exception as e:
            err = f"{type(e).__name__}: {e}"

            def broken():
                raise Broken(f"the block of {prop} {name} cannot be built: {err}")
            out.append(Cfg(f"{prop}_{name}", broken, CPP))
            return
        idle, qual, tie = dict(idle or {}), dict(qual or {}), dict(tie or {})

        def build():
            m = Module()
            ins, outs = {}, {}
            for k in "ab":
                with contextlib.redirect_stdout(io.StringIO()):
                    t, i, o = src.build()
                rst = Signal(name="rst_" + k)
                m.submodules[k] = ResetInserter({d: rst for d in src.domains})(Fragment.get(t, None))
                ins["rst_" + k] = rst
                ins.update({f"{k}_{n}": s for n, s in i.items()})
                outs.update({f"{k}_{n}": s for n, s in o.items()})
            return m, ins, outs
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                _, i, o = src.build()
            iw, on = {n: len(s) for n, s in i.items()}, list(o)
        except Exception:       # build() meets the same problem and reports it
            iw, on = {}, []
        ab = {n: alpha.get(n, tie[n] if n in tie else ((0, 1) if w == 1 else (0, 0xA5A5A5A5 & ((1 << w) - 1)))) for n, w in iw.items()}
        ab = {n: (v if isinstance(v, tuple) else (v,)) for n, v in ab.items()}
        choose = "".join(f"u64 x_{n}=0; " + (f"switch(ch({len(v)})){{ " + " ".join(f"case {j}: x_{n}={x}ull; break;" for j, x in enumerate(v)) + " } " if len(v) > 1 else f"x_{n}={v[0]}ull; ")
                         for n, v in ab.items())
        idv = {n: idle.get(n, v[0]) for n, v in ab.items()}

        def s(k, what):
            return "".join(f"d.{k}_{n}={what(n)}; " for n in ab)
        cpp = CPP
        for k in "ab":
            cpp = cpp.replace("IDLE_" + k.upper(), s(k, lambda n: idv[n])).replace("SET_" + k.upper(), s(k, lambda n: "x_" + n))
            cpp = cpp.replace("RELEASE_" + k.upper(), "".join(f"d.{k}_{n}={idv[n]}; " for n in pulse))
        cmp = ""
        for n in on:
            if n in skip:
                continue
            q = qual.get(n)
            c = "" if not q else f"if(!d.b_{q[1:]}) " if q[0] == "!" else f"if(d.b_{q}) "
            cmp += f'{c}CHECK(d.a_{n}==d.b_{n},"{n} is %lld after a reset, %lld in a block that was not used before",(long long)d.a_{n},(long long)d.b_{n}); '
        cpp = cpp.replace("COMPARE", cmp + "bool ac=false; " + "".join(f"{{ static bool f=false; static long long v; if(!f){{ f=true; v=(long long)d.b_{n}; }} ac|=v!=(long long)d.b_{n}; }} " for n in on) + 'COVERIF(ac,"activity"); ')
        cpp = cpp.replace("DIFF", "".join(f"df|=d.a_{n}!=d.b_{n}; " for n in on)).replace("CHOOSE", choose)
        out.append(Cfg(f"{prop}_{name}", build, cpp, {"P": P if quick else P*3//2, "Q": Q if quick else Q*3//2, "HOLD": hold, "LATE": late if rest > 1 else 0, "REST": rest, "FREE": int(rest == 1 and math.prod(len(v) for v in ab.values()) <= 512), "MASK": (1 << len(src.domains)) - 1}, domains=src.domains, covers=list(cov), ntraces=2, max_states=ms))
    pl = dict(payload="valid", first="valid", last="valid")
    # utilities
    add("U02", "w1d2sync", {}, qual={"read_data": "!empty"})
    add("U02", "w1d3usb", {}, qual={"read_data": "!empty"})
    add("U03", "w1_sync", {})
    add("U04", "n5_sync", {})
    add("U04", "n4d_usb_out", {})
    add("U06", "w3_lNone_rNone_1", {"load_in": (0, 3, 7), "reload_in": (0, 2)})
    add("U06", "w3_l2_rNone_0", {})
    add("U07", "clk6p0", {})
    add("U07", "clk8p1", {})
    add("U07", "cnt5w4", {})
    add("U08", "in5", {})
    add("U08", "out5r", {"value_in": (0, 0x15, 0x0b)})
    add("U08", "out3", {"value_in": (0, 5, 3)})
    add("U08", "nrzi", {})
    add("U09", "d4_4_3_None", {})
    # streams
    for n in ("arb1w2_sync", "arb3w1_sync"):
        add("S02", n, {}, qual=pl)
    add("S01", "plain2_w1fl", {}, qual=pl)
    add("S01", "buf2_w1fl", {}, qual=pl)
    add("S03", "b5_mlNone", {}, qual=pl)
    add("S03", "b5_ml4", {"max_length": (0, 2, 9)}, qual=pl)
    add("S04", "n3w2_ml3", {"d0": 1, "d1": 2, "d2": 3, "max_length": (3, 2, 7)}, qual=pl)
    add("S05", "p2_1w8", {}, qual=pl)
    add("S06", "p4_d2", {"scl_i": 1, "sda_i": (1, 0), "payload": 0xa5}, hold=4, P=30, Q=45, rest=4)
    add("S07", "single_2", {"payload": (0xa5, 0x0f)}, hold=2)
    add("S07", "multi2_2", {"payload": (0xa53c,)}, hold=2)
    add("S07", "bus_3", {"dat_w": 0x3a}, hold=3)
    # interfaces
    add("I01", "d3_b8_none", {"data": (0xa5, 0x12)}, hold=3)
    add("I01", "d4_b5_odd_rt4", {"data": 0x15, "divisor": (4, 2)}, hold=2, P=30, Q=40)
    add("I02", "d5_b8_none_bad", {"i": (1, 0)}, hold=5, qual={"data": "rdy"}, P=12, Q=12, rest=4)
    add("I03", "full", {"btn_in": (1, 0)}, hold=9000, P=14, Q=16)
    add("I04", "p4_nostretch", {"scl_i": 1, "sda_i": (1, 0), "data_i": 0xa5}, hold=4, pulse=("start", "stop", "read", "write"), P=12, Q=14, rest=4)
    add("I05", "alpha", {"scl_i": (1, 0), "sda_i": (1, 0), "address": 0x50, "data_o": 0x3a, "busy": (0, 1)}, hold=3, P=20, Q=21, rest=4)
    add("I07", "m00_ws5_abort", {"word_out": 0x13}, hold=3, rest=4)
    add("I07", "m11_ws5_abort", {"word_out": 0x13}, hold=3, rest=4)
    add("I08", "m00_ws4", {"word_out": 5}, hold=5, pulse=("start_transfer",), late=0, rest=4)
    add("I08", "m11_ws4", {"word_out": 5}, hold=5, pulse=("start_transfer",), late=0, rest=4)
    add("I09", "c3w3_abort", {"word_to_send": 5}, hold=3, rest=4)
    add("I10", "a2w2_abort", {"ro": 2}, hold=3, rest=4)
    add("I12", "std_w2_l2", {"stream_in__payload": (1, 2), "stream_in__last": 0}, hold=3, rest=4)
    add("I13", "std_w2_l2", {"enable_in": 1}, hold=3, qual={"stream_out__payload": "stream_out__valid"}, rest=4)
    add("I15", "n1_div10", {"sdi": 0, **{f"d{i}": (0x11 * i + 1) for i in range(8)}}, hold=25)
    add("I16", "8MHz_n3", {"r": 0, "g": 0, "b": 0, "a": 0, "we": 0}, hold=11, pulse=("start",))
    # signal processing
    add("D01", "n3_b4_all", {"i": (0, 7, 8)})
    add("D02", "n7_b2_f6_all", {"i": (0, 1, 2)})
    add("D03", "o2_b3_all", {"i": (0, 3, 4)})
    add("D04", "s2_r2_b3", {"i": (1, 7)})
    add("D05", "fir_2_o2_b3_all", {"i": (0, 3, 4)})
    add("D06", "2_1_o3", {"in__payload": (0, 0x55, 0x80)}, qual={"out__payload": "out__valid"}, P=8, Q=8)
    add("D08", "p4_w8_default", {"in_i": (0x55, 0x9a), "in_q": (0x21,), "wf_start": 0, "wf_strobe": 0, "wf_real": 0, "wf_imag": 0}, hold=4, pulse=("start", "strobe_in"), P=30, Q=60,
        qual={"out_real": "strobe_out", "out_imag": "strobe_out"})
    # logic analyzer
    add("L01", "d4_p0", {"captured_sample_number": (0, 3)}, qual={"captured_sample": "complete"})
    add("L01", "d3_p0_en", {"captured_sample_number": (0, 2)}, qual={"captured_sample": "complete"})
    add("L02", "d4_p0", {}, qual=pl)
    add("L03", "uart_w5_d3", {"s0": (2, 5), "s1": 1}, hold=2)
    add("L03", "spi_m01_w12", {"s0": (0xa51, 0x5ae)}, hold=4, P=8, Q=10)
    # system-on-chip
    add("O01", "ram_bytes_le", {"bus__we": 0, "bus__dat_w": 0, "bus__sel": 0xf, "bus__adr": (0, 1)}, qual={"bus__dat_r": "bus__ack"})
    for n in ("level", "rise", "fall"):
        add("O02", n, {})
    add("O03", "tx", {"rx": (1, 0), "tx_wdata": 0xa5, "dv_data": 6, "p_data": 7, "e_data": 5, "en_data": 1}, hold=4, P=5, Q=6, rest=4,
        pulse=("en_stb", "tx_stb", "rx_stb", "dv_stb", "p_stb", "e_stb"), qual={"rx_rdata": "rx_rdy"})
    return out

"""Filterbank against individually instantiated filters wired in series, in one design, over every input and enable history."""
from mc.runner import Cfg
from mc.dsp import CPP as DSP

ASSUMPTIONS = ["the member filters themselves are judged by D01 and D03; here the bank is compared with the same filters instantiated and wired by the harness",
               "bounded-alphabet configurations: histories with at most LEN non-zero samples, banks flushed by zeros for FLUSH samples at most; or one dense sample sequence"]

CPP = DSP + r"""
static const i64 AB[]={ALPHA};
struct Mon { u8 len, tot; u16 c; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int en=ch(2); i64 v=0;
  if(en){
#ifdef FULL
    v=sx(ch(1<<BW),BW);
#elif DENSE
    ASSUME(m.c<4*DENSE); v=sx(((m.c%DENSE)*2654435761u)>>8,BW)>>1; m.c++;
#else
    ASSUME(m.tot<FLUSH); m.tot++;
    if(m.len<LEN){ v=AB[ch(sizeof AB/8)]; if(v) m.len++; }
#endif
  }
  d.e=en; d.i= en? mk(v,BW) : mk(AB[0],BW);
  d.comb();
  CHECK(d.o==d.r,"bank output is %lld, filters in series give %lld",(long long)sx(d.o,BW),(long long)sx(d.r,BW));
  COVERIF(sx(d.o,BW)>0,"positive output"); COVERIF(sx(d.o,BW)<0,"negative output"); COVERIF(!en && d.o,"held");
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Elaboratable, Module, Signal, signed
    from amlib.dsp.filterbank import Filterbank
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter

    class Both(Elaboratable):
        def __init__(self, n, structure, order, bw, fw, cutoff, fs, ftype):
            kw = dict(samplerate=fs, bitwidth=bw, fraction_width=fw, cutoff_freq=cutoff, filter_order=order, filter_type=ftype, verbose=bool(order % 2))
            self.bank = Filterbank(n, filter_structure=structure, **kw)
            self.refs = [(FixedPointFIRFilter if structure == "fir" else FixedPointIIRFilter)(**kw) for _ in range(n)]
            self.e, self.i, self.o, self.r = Signal(), Signal(signed(bw)), Signal(signed(bw)), Signal(signed(bw))

        def elaborate(self, platform):
            m = Module()
            m.submodules.bank = self.bank
            m.d.comb += [self.bank.enable_in.eq(self.e), self.bank.signal_in.eq(self.i), self.o.eq(self.bank.signal_out)]
            s = self.i
            for k, f in enumerate(self.refs):
                m.submodules[f"ref{k}"] = f
                m.d.comb += [f.enable_in.eq(self.e), f.signal_in.eq(s)]
                s = f.signal_out
            m.d.comb += self.r.eq(s)
            return m

    def mk(*a):
        def build():
            t = Both(*a)
            return t, {"e": t.e, "i": t.i}, {"o": t.o, "r": t.r}
        return build
    out = []

    def add(name, n, structure, order, bw, fw, cutoff=40000, fs=200000, ftype="lowpass", full=False, ln=3, flush=14, alpha=None, dense=0, **kw):
        c = {"BW": bw, "LEN": ln, "DENSE": dense, "FLUSH": flush, "ALPHA": ",".join(str(x) for x in (alpha or [(1 << bw - 1) - 1, -(1 << bw - 1), 0]))}
        if full:
            c["FULL"] = 1
        out.append(Cfg(name, mk(n, structure, order, bw, fw, cutoff, fs, ftype), CPP, c, covers=["positive output", "negative output", "held"],
                       ntraces=4, max_states=20_000_000, cost=2, **kw))
    add("fir_1_o3_b3_all", 1, "fir", 3, 3, 8, full=True)
    add("fir_2_o2_b3_all", 2, "fir", 2, 3, 8, full=True)
    add("fir_3_o2_b2_all", 3, "fir", 3, 3, 8, ftype="highpass", ln=5, flush=9)
    add("fir_2_o24_b18", 2, "fir", 24, 18, 18, cutoff=20000, fs=336000, ln=2, flush=60, alpha=[131071, -131072, 0])
    add("fir_4_o5_b16", 4, "fir", 5, 16, 18, cutoff=20000, fs=96000, ln=2, flush=30)
    add("fir_remez", 2, "fir", 9, 18, 18, cutoff=[8000, 16000], fs=48000, ln=2, flush=30)
    add("iir_1_o1_b4_all", 1, "iir", 1, 4, 8, full=True)
    add("iir_2_o1_b3_all", 2, "iir", 1, 3, 8, full=True)
    add("iir_3_o2_b18", 3, "iir", 2, 18, 18, cutoff=20000, fs=336000, ln=4, flush=9)
    add("iir_2_hp_b16_f24", 2, "iir", 3, 16, 24, cutoff=6000, fs=48000, ftype="highpass", ln=4, flush=9)
    add("fir_8_o16_b18_dense", 8, "fir", 16, 18, 18, cutoff=20000, fs=192000, dense=100)
    add("fir_5_hp_o33_b12_dense", 5, "fir", 33, 12, 14, cutoff=20000, fs=96000, ftype="highpass", dense=100)
    add("iir_6_o3_b20_dense", 6, "iir", 3, 20, 20, cutoff=10000, fs=96000, dense=100)
    add("iir_9_hp_o1_b16_dense", 9, "iir", 1, 16, 18, cutoff=1000, fs=48000, ftype="highpass", dense=100)
    if tier == "thorough":
        add("t_fir_2_o3_b3_all", 2, "fir", 3, 3, 8, full=True)
        add("t_iir_2_o2_b2", 2, "iir", 2, 6, 8, ln=9, flush=9)
        add("t_fir_5_o24", 5, "fir", 24, 18, 18, cutoff=20000, fs=336000, ln=2, flush=130)
        add("t_iir_4_o4", 4, "iir", 4, 20, 20, cutoff=6000, fs=48000, ln=10, flush=10)
    return out

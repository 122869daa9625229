"""FixedPointIIRFilter: every input and enable history against the direct-form difference equation."""
from mc.runner import Cfg, PyCfg
from mc.dsp import CPP as DSP

ASSUMPTIONS = ["each product is scaled by 2**-fraction_width, rounding down, before the sum is wrapped to the sample width",
               "coefficients are within one quantization step of the Chebyshev type 1 design with 1 dB ripple",
               "wide filters: histories of at most LEN samples from a bounded alphabet, or LEN samples of one dense sequence"]

CPP = DSP + r"""
static const i64 B[]={TB}; static const i64 A[]={TA};
static const i64 AB[]={ALPHA};
struct Mon { u16 c, n; i32 x[N]; i32 y[N]; i32 out; u8 len; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int en=ch(2); i64 v=0;
  if(en){
#ifdef FULL
    v=sx(ch(1<<BW),BW);
#elif DENSE
    v=sx((m.c*2654435761u)>>8,BW)>>1; m.c=(m.c+1)%DENSE; ASSUME(m.n<LEN); m.n++;
#else
    ASSUME(m.len<LEN); v=AB[ch(sizeof AB/8)]; m.len++;
#endif
  }
  d.e=en; d.i= en? mk(v,BW) : mk(~m.x[0],BW);
  d.comb();
  i64 o=sx(d.o,BW);
  CHECK(o==m.out,"output is %lld, the difference equation gives %lld",(long long)o,(long long)m.out);
  COVERIF(o<0,"negative output"); COVERIF(o>0,"positive output"); COVERIF(!en && o,"held");
  if(en){
    for(int i=N-1;i>0;i--) m.x[i]=m.x[i-1]; m.x[0]=v;
    for(int i=N-2;i>0;i--) m.y[i]=m.y[i-1]; m.y[0]=m.out;
    i64 s=0; for(int i=0;i<N;i++) s+=fsh((i128)m.x[i]*B[i],FW); for(int i=0;i<N-1;i++) s-=fsh((i128)m.y[i]*A[i],FW);
    m.out=sx(mk(s,BW),BW);
  }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from scipy import signal
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter

    def make(order, bw, fw, cutoff, fs, ftype):
        return FixedPointIIRFilter(samplerate=fs, bitwidth=bw, fraction_width=fw, cutoff_freq=cutoff, filter_order=order, filter_type=ftype, **({"verbose": True} if order % 2 else {}))

    def mk(*a):
        def build():
            t = make(*a)
            return t, {"e": t.enable_in, "i": t.signal_in}, {"o": t.signal_out}
        return build
    out = []

    def add(name, order, bw, fw, cutoff=40000, fs=200000, ftype="lowpass", full=False, ln=8, alpha=None, dense=0, **kw):
        a = (order, bw, fw, cutoff, fs, ftype)
        t = make(*a)
        c = {"N": order + 1, "BW": bw, "FW": fw, "LEN": ln, "DENSE": dense, "TB": ",".join(f"{x}ll" for x in t.b), "TA": ",".join(f"{x}ll" for x in t.a[1:]),
             "ALPHA": ",".join(str(x) for x in (alpha or [(1 << bw - 1) - 1, -(1 << bw - 1), 0]))}
        if full:
            c["FULL"] = 1
        out.append(Cfg(name, mk(*a), CPP, c, covers=["negative output", "positive output", "held"], ntraces=4, max_states=20_000_000, cost=2, **kw))
    add("o1_b4_all", 1, 4, 8, full=True)
    add("o1_b6_f6_all", 1, 6, 6, full=True)
    add("o2_b3_all", 2, 3, 8, full=True)
    add("o2_hp_b3_all", 2, 3, 8, ftype="highpass", full=True)
    add("o2_b18", 2, 18, 18, cutoff=20000, fs=336000)
    add("o2_b18_f24_alpha", 2, 18, 24, cutoff=2000, fs=48000, ln=5, alpha=[131071, -131072, 1, -1, 0, 77777, -33333])
    add("o4_hp_b16", 4, 16, 20, cutoff=5000, fs=48000, ftype="highpass")
    add("o5_b20", 5, 20, 20, cutoff=10000, fs=48000)
    add("o8_b24_dense", 8, 24, 24, cutoff=20000, fs=96000, ln=3000, dense=61)
    add("o6_hp_b18_dense", 6, 18, 20, cutoff=3000, fs=48000, ftype="highpass", ln=3000, dense=53)
    add("o3_b16_dense", 3, 16, 24, cutoff=1000, fs=48000, ln=5000, dense=997)
    add("o1_hp_b12_dense", 1, 12, 16, cutoff=1000, fs=48000, ftype="highpass", ln=5000, dense=997)
    if tier == "thorough":
        add("t_o2_b4_all", 2, 4, 8, full=True)
        add("t_o3_b3_all", 3, 3, 8, full=True)
        add("t_o1_b8_all", 1, 7, 10, full=True)
        add("t_o2_b18_long", 2, 18, 18, cutoff=20000, fs=336000, ln=13)
        add("t_o8_b24", 8, 24, 24, cutoff=20000, fs=96000, ln=11)

    def design(tier):
        n, viol, samples = 0, {}, []
        for order in range(1, 9):
            for fs in (8000, 48000, 336000):
                for frac in (0.1, 0.2, 0.4):
                    for ftype in ("lowpass", "highpass"):
                        for bw, fw in ((18, 18), (12, 30)):
                            n += 1
                            key = f"{ftype} order={order} fs={fs} cutoff={int(fs*frac)} {bw}.{fw}"
                            try:
                                t = make(order, bw, fw, int(fs * frac), fs, ftype)
                            except Exception as e:
                                viol.setdefault("exc", f"{key}: raised {type(e).__name__}: {e}")
                                continue
                            b, a = signal.cheby1(order, 1.0, int(fs * frac) / (fs / 2), btype=ftype, output="ba")
                            for nm, got, want in (("b", t.b, b), ("a", t.a, a)):
                                if len(got) != order + 1 or any(abs(g - w * 2 ** fw) > 1.001 for g, w in zip(got, want)):
                                    viol.setdefault(nm, f"{key}: {nm} coefficients {got} instead of {[round(w * 2**fw) for w in want]}")
                            if len(samples) < 3 and n % 17 == 0:
                                samples.append(f"{key}: b={t.b[:3]}")
        return dict(states=n, transitions=n, samples=samples, violations=list(viol.items()))
    out.append(PyCfg("coefficients", design))
    return out

"""FixedPointHBFilter: every input history against the direct-form half-band convolution, and the decimated output strobe."""
from mc.runner import Cfg, PyCfg
from mc.dsp import CPP as DSP

ASSUMPTIONS = ["each pair product is scaled by 2**-fraction_width, rounding down, before the sum is wrapped to the sample width; the centre coefficient is one half",
               "the resource-sharing filter gets samples at least order//4+4 clock cycles apart",
               "signal_out is sampled in the cycle of strobe_out, which comes once per two input samples",
               "long filters: histories with at most NZ non-zero samples, or one dense sample sequence of period DENSE with every timing of the samples"]

CPP = DSP + r"""
static const i64 T[]={TAPS};
static const i64 AB[]={ALPHA};
struct Mon { u16 c; i32 x[N]; i32 out; u8 gap, nz, zr, par, due, age; };
static i64 conv(Mon& m){ i64 s=m.x[N/2]>>1; for(int i=0;i<=N/4;i++) s+=fsh((i128)(m.x[2*i]+m.x[N-1-2*i])*T[2*i],FW); return sx(mk(s,BW),BW); }
static int init(D& d, Mon& m, Ch& ch){ m.gap=SP; m.zr=N; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int en= (!MAC || m.gap>=SP) && ch(2);
  i64 v=0;
  if(en){
#ifdef FULL
    v=sx(ch(1<<BW),BW);
#elif DENSE
    v=sx((m.c*2654435761u)>>8,BW); m.c=(m.c+1)%DENSE;
#else
    if(m.nz<NZ && ch(2)){ v=AB[ch(sizeof AB/8)]; m.nz++; }
    if(v) m.zr=0; else if(m.zr<N){ m.zr++; if(m.zr>=N) m.nz=0; }
#endif
  }
  d.e=en; d.i= en? mk(v,BW) : mk(~m.x[0],BW);
  d.comb();
  i64 o=sx(d.o,BW);
  bool settled = !MAC || m.gap>=SP;
  if(settled) CHECK(o==m.out,"output is %lld, the half-band convolution is %lld",(long long)o,(long long)m.out);
  if(d.s){
    CHECK(m.due,"output strobe without two new samples");
    CHECK(o==m.out,"at the output strobe the output is %lld, the half-band convolution is %lld",(long long)o,(long long)m.out);
    m.due=0; m.age=0; COVERIF(o>0,"strobe positive"); COVERIF(o<0,"strobe negative");
  } else if(m.due) CHECK(++m.age<=(MAC?SP:2),"no output strobe after two samples");
  COVERIF(!en && o && settled,"held");
  if(en){ CHECK(!m.due,"output strobe too late"); for(int i=N-1;i>0;i--) m.x[i]=m.x[i-1]; m.x[0]=v; m.out=conv(m); m.gap=0; m.par^=1; if(!m.par) m.due=1; }
  if(m.gap<SP) m.gap++;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter

    def make(order, bw, fw, mac):
        return FixedPointHBFilter(bitwidth=bw, fraction_width=fw, filter_order=order, mac_loop=mac, verbose=not mac)

    def mk(*a):
        def build():
            t = make(*a)
            return t, {"e": t.strobe_in, "i": t.signal_in}, {"o": t.signal_out, "s": t.strobe_out}
        return build
    out = []

    def add(name, order, bw, fw, mac=False, full=False, nz=2, alpha=None, dense=0, cov=("strobe positive", "strobe negative", "held"), **kw):
        a = (order, bw, fw, mac)
        taps = make(*a).taps
        c = {"N": order, "BW": bw, "FW": fw, "MAC": int(mac), "SP": order // 4 + 4, "NZ": nz, "DENSE": dense, "TAPS": ",".join(f"{t}ll" for t in taps),
             "ALPHA": ",".join(str(x) for x in (alpha or [(1 << bw - 1) - 1, -(1 << bw - 1), 3, -1]))}
        if full:
            c["FULL"] = 1
        out.append(Cfg(name, mk(*a), CPP, c, covers=list(cov), ntraces=4, max_states=20_000_000, cost=2, **kw))
    for mac in (False, True):
        p = "mac_" if mac else ""
        add(p + "n3_b4_all", 3, 4, 8, mac=mac, full=True)
        add(p + "n3_b5_f5_all", 3, 5, 5, mac=mac, full=True)
        add(p + "n7_b2_f6_all", 7, 2, 6, mac=mac, full=True, cov=("held",))
        add(p + "n7_b18", 7, 18, 18, mac=mac, nz=3)
        add(p + "n11_b16_f20", 11, 16, 20, mac=mac, nz=2)
        add(p + "n19_b18", 19, 18, 18, mac=mac, nz=2)
        add(p + "n35_b24", 35, 24, 24, mac=mac, nz=1, alpha=[(1 << 23) - 1, -(1 << 23), 4661])
        add(p + "n67_b16", 67, 16, 16, mac=mac, nz=1, alpha=[32767, -32768])
        add(p + "n23_b18_dense", 23, 18, 18, mac=mac, dense=58)
        add(p + "n15_b24_dense", 15, 24, 24, mac=mac, dense=74)
        add(p + "n63_b16_f17_dense", 63, 16, 17, mac=mac, dense=90)
    if tier == "thorough":
        for mac in (False, True):
            p = "t_mac_" if mac else "t_"
            add(p + "n7_b18_4", 7, 18, 18, mac=mac, nz=5, alpha=[131071, -131072, -77])
            add(p + "n19_b18_3", 19, 18, 18, mac=mac, nz=3, alpha=[131071, -131072])
            add(p + "n35_b24_f24", 35, 24, 24, mac=mac, nz=2)
            add(p + ("n3_b5_f9_all" if mac else "n3_b6_f9_all"), 3, 5 if mac else 6, 9, mac=mac, full=True)

    def design(tier):
        import cmath
        from math import pi
        n, viol, samples = 0, {}, []
        for order in range(3, 64 if tier == "quick" else 128, 4):
            for bw, fw in ((18, 18), (16, 20), (12, 24)):
                n += 1
                key = f"order={order} {bw}.{fw}"
                got = make(order, bw, fw, False).taps
                if len(got) != order:
                    viol.setdefault("len", f"{key}: {len(got)} coefficients")
                    continue
                for k, t in enumerate(got):
                    if abs(t - got[order - 1 - k]) > 1:
                        viol.setdefault("sym", f"{key}: coefficients {k} and {order-1-k} differ: {t}, {got[order-1-k]}")
                    if k % 2 == 1 and k != order // 2 and abs(t) > 2 ** fw * 1e-3:
                        viol.setdefault("zero", f"{key}: odd coefficient {k} is {t}")
                if abs(got[order // 2] - 2 ** (fw - 1)) > 2 ** fw * 1e-2:
                    viol.setdefault("centre", f"{key}: centre coefficient is {got[order//2]}")
                if order >= 19:
                    gain = lambda f: abs(sum(t / 2 ** fw * cmath.exp(-2j * pi * f * k) for k, t in enumerate(got)))
                    if any(abs(gain(0.2 * i / 16) - 1) > 0.1 for i in range(17)) or any(gain(0.3 + 0.2 * i / 16) > 0.1 for i in range(17)):
                        viol.setdefault("response", f"{key}: not a half-band low pass")
                if len(samples) < 3:
                    samples.append(f"{key}: {got[:4]}")
        return dict(states=n, transitions=n, samples=samples, violations=list(viol.items()))
    out.append(PyCfg("coefficients", design))
    return out

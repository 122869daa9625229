"""FixedPointFIRFilter: every input history against the direct-form convolution; coefficients against an independent design."""
from mc.runner import Cfg, PyCfg
from mc.dsp import CPP as DSP, firwin_hamming

ASSUMPTIONS = ["each product is scaled by 2**-fraction_width, rounding down, before the sum is wrapped to the sample width",
               "coefficients are within one quantization step of the requested design (Hamming-windowed sinc for one cutoff frequency; equiripple: pass band gain and stop band attenuation)",
               "the resource-sharing filter gets samples at least order+3 clock cycles apart; its output is the new sample's by the next sample and changes only once",
               "long filters: histories with at most NZ non-zero samples, or one dense sample sequence of period DENSE with every timing of the samples"]

CPP = DSP + r"""
static const i64 T[]={TAPS};
static const i64 AB[]={ALPHA};
struct Mon { u16 c; i32 x[N]; i32 out, prev; u8 gap; u8 nz; u8 zr; u8 seen; };
static i64 conv(Mon& m){ i64 s=0; for(int i=0;i<N;i++) s+=fsh((i128)m.x[i]*T[i],FW); return sx(mk(s,BW),BW); }
static int init(D& d, Mon& m, Ch& ch){ m.gap=MAC?SP:0; m.zr=N; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int en= (!MAC || m.gap>=SP) && ch(2);
  i64 v=0;
  if(en){
#ifdef FULL
    v=sx(ch(1<<BW),BW);
#elif DENSE
    v=sx((m.c*2654435761u)>>8,BW); m.c=(m.c+1)%DENSE;
#else
    if(m.nz<NZ && ch(2)){ v=AB[ch(sizeof AB/8)]; m.nz++; }
    if(v) m.zr=0; else if(m.zr<N){ m.zr++; if(m.zr>=N) m.nz=0; }
#endif
  }
  d.e=en; d.i= en? mk(v,BW) : mk(~m.x[0],BW);
  d.comb();
  i64 o=sx(d.o,BW);
  if(!MAC || m.gap>=SP) CHECK(o==m.out,"output is %lld, the convolution is %lld",(long long)o,(long long)m.out);
  else { CHECK(o==m.out || (!m.seen && o==m.prev),"output is %lld; before: %lld, convolution: %lld",(long long)o,(long long)m.prev,(long long)m.out); if(o==m.out && m.out!=m.prev) m.seen=1; }
  COVERIF(o<0,"negative output"); COVERIF(o>0,"positive output"); COVERIF(!en && o,"held");
  if(en){ for(int i=N-1;i>0;i--) m.x[i]=m.x[i-1]; m.x[0]=v; m.prev=m.out; m.out=conv(m); m.gap=0; m.seen=0; }
  if(MAC && m.gap<SP){ m.gap++; if(m.gap>=SP) { m.prev=0; m.seen=0; } }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter

    def make(order, bw, fw, cutoff, fs, ftype, mac, weight=None):
        return FixedPointFIRFilter(samplerate=fs, bitwidth=bw, fraction_width=fw, cutoff_freq=cutoff, filter_order=order,
                                   filter_type=ftype, weight=weight, mac_loop=mac, **({"verbose": False} if mac else {}))

    def mk(*a):
        def build():
            t = make(*a)
            return t, {"e": t.enable_in, "i": t.signal_in}, {"o": t.signal_out}
        return build
    out = []

    def add(name, order, bw, fw, cutoff=50000, fs=200000, ftype="lowpass", mac=False, full=False, nz=2, alpha=None, dense=0, weight=None, **kw):
        a = (order, bw, fw, cutoff, fs, ftype, mac, weight)
        taps = make(*a).taps
        c = {"N": order, "BW": bw, "FW": fw, "MAC": int(mac), "SP": order + 3, "NZ": nz, "DENSE": dense, "TAPS": ",".join(f"{t}ll" for t in taps),
             "ALPHA": ",".join(str(x) for x in (alpha or [(1 << bw - 1) - 1, -(1 << bw - 1), 1, -1]))}
        if full:
            c["FULL"] = 1
        out.append(Cfg(name, mk(*a), CPP, c, covers=["negative output", "positive output", "held"], ntraces=4, max_states=20_000_000, cost=2, **kw))
    for mac in (False, True):
        p = "mac_" if mac else ""
        add(p + "n3_b4_all", 3, 4, 8, mac=mac, full=True)
        add(p + "n4_b3_f3_all", 4, 3, 3, mac=mac, full=True)
        add(p + "n1_b4_all", 1, 4, 4, mac=mac, full=True)
        add(p + "n2_b5_f7_all", 2, 5, 7, mac=mac, full=True)
        add(p + "n3_hp_b4_all", 3, 4, 9, ftype="highpass", mac=mac, full=True)
        add(p + "n5_b18", 5, 18, 18, cutoff=20000, fs=336000, mac=mac, nz=3)
        add(p + "n24_b18", 24, 18, 18, cutoff=20000, fs=336000, mac=mac, nz=2, alpha=[131071, -131072])
        add(p + "n9_hp_b16_f20", 9, 16, 20, ftype="highpass", cutoff=20000, fs=48000, mac=mac, nz=2)
        add(p + "n12_remez_b12_f12", 12, 12, 12, cutoff=[10000, 16000], fs=48000, mac=mac, nz=2)
        add(p + "n16_b18_dense", 16, 18, 18, cutoff=20000, fs=192000, mac=mac, dense=51)
        add(p + "n17_b24_dense", 17, 24, 24, cutoff=20000, fs=192000, mac=mac, dense=53)
        add(p + "n64_b16_dense", 64, 16, 20, cutoff=20000, fs=192000, mac=mac, dense=150)
        add(p + "n65_hp_b20_dense", 65, 20, 20, ftype="highpass", cutoff=20000, fs=192000, mac=mac, dense=97)
    add("mac_n31_b12", 31, 12, 14, cutoff=20000, fs=96000, mac=True, nz=1)
    add("mac_n40_b18", 40, 18, 18, cutoff=20000, fs=192000, mac=True, nz=1)
    add("n40_b24", 40, 24, 24, cutoff=20000, fs=192000, nz=2)
    add("mac_n33_remez_weight", 33, 16, 18, cutoff=[8000, 12000], fs=48000, mac=True, nz=1, weight=[1, 20])
    if tier == "thorough":
        for mac in (False, True):
            p = "t_mac_" if mac else "t_"
            add(p + "n5_b3_all", 5, 3, 5, mac=mac, full=True)
            add(p + "n4_b4_all", 4, 4, 6, mac=mac, full=True)
            b = 5 if mac else 7
            add(p + f"n2_b{b}_f8_all", 2, b, 8, mac=mac, full=True)
            add(p + "n24_b18_3", 24, 18, 18, cutoff=20000, fs=336000, mac=mac, nz=3)
            add(p + "n48_b24_f24", 48, 24, 24, cutoff=20000, fs=192000, mac=mac, nz=2, alpha=[8388607, -8388608, 12345])

    def design(tier):
        import cmath
        from math import pi
        n = 0
        viol, samples = {}, []
        orders = (3, 5, 8, 24, 25) if tier == "quick" else tuple(range(3, 65))
        for bw, fw in ((18, 18), (16, 24)):
            for order in orders:
                for fs in (8000, 48000, 336000):
                    for frac in (0.02, 0.1, 0.25, 0.4):
                        for ftype in ("lowpass", "highpass"):
                            if ftype == "highpass" and order % 2 == 0:
                                continue
                            cut = int(fs * frac)
                            key = f"{ftype} order={order} fs={fs} cutoff={cut} {bw}.{fw}"
                            want = firwin_hamming(order, cut / fs, ftype == "lowpass")
                            n += 1
                            try:
                                got = make(order, bw, fw, cut, fs, ftype, False).taps
                            except Exception as e:
                                viol.setdefault("exc", f"{key}: raised {type(e).__name__}: {e}")
                                continue
                            if len(got) != order or any(abs(g - w * 2 ** fw) > 1.001 for g, w in zip(got, want)):
                                viol.setdefault("design", f"{key}: coefficients {got[:4]}.. instead of {[round(w * 2**fw) for w in want[:4]]}..")
                            elif len(samples) < 3 and n % 37 == 0:
                                samples.append(f"{key}: {got[:4]}")
        for fs, band, ftype in ((48000, [4000, 8000], "lowpass"), (48000, [4000, 8000], "highpass"), (48000, [4000, 8000], True), (48000, [4000, 8000], False), (96000, [20000, 30000], "lowpass")):
            for order in (25, 31):
                n += 1
                key = f"equiripple {ftype} order={order} fs={fs} bands={band}"
                try:
                    got = make(order, 18, 18, band, fs, ftype, False).taps
                except Exception as e:
                    viol.setdefault("exc2", f"{key}: raised {type(e).__name__}: {e}")
                    continue
                gain = lambda f: abs(sum(t / 2 ** 18 * cmath.exp(-2j * pi * f / fs * k) for k, t in enumerate(got)))
                lo = [gain(band[0] * i / 16) for i in range(17)]
                hi = [gain(band[1] + (fs / 2 - band[1]) * i / 16) for i in range(17)]
                ps, st = (lo, hi) if ftype in ("lowpass", True) else (hi, lo)
                if len(got) != order or any(abs(g - 1) > 0.15 for g in ps) or any(g > 0.15 for g in st):
                    viol.setdefault("equiripple", f"{key}: pass band gain {min(ps):.2f}..{max(ps):.2f}, stop band up to {max(st):.2f}")
        # a band weighted w times as heavily as the other has 1/w of its ripple
        for fs, band, ftype in ((48000, [4000, 8000], "lowpass"), (96000, [20000, 26000], "highpass"), (48000, [6000, 9000], "lowpass")):
            for order in (21, 25, 31):
                for weight in ([1, 1], [1, 8], [8, 1], [1, 30], [10, 2]):
                    n += 1
                    key = f"equiripple {ftype} order={order} fs={fs} bands={band} weight={weight}"
                    try:
                        got = make(order, 18, 24, band, fs, ftype, False, weight).taps
                    except Exception as e:
                        viol.setdefault("exc3", f"{key}: raised {type(e).__name__}: {e}")
                        continue
                    gain = lambda f: abs(sum(t / 2 ** 24 * cmath.exp(-2j * pi * f / fs * k) for k, t in enumerate(got)))
                    one = (1, 0) if ftype == "lowpass" else (0, 1)
                    dev = [max(abs(gain(a + (b - a) * i / 200) - o) for i in range(201)) for a, b, o in ((0, band[0], one[0]), (band[1], fs / 2, one[1]))]
                    if not 0.8 < dev[0] * weight[0] / (dev[1] * weight[1]) < 1.25:
                        viol.setdefault("weight", f"{key}: ripple {dev[0]:.5f} below, {dev[1]:.5f} above")
        return dict(states=n, transitions=n, samples=samples, violations=list(viol.items()))
    out.append(PyCfg("coefficients", design))
    return out

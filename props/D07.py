"""StereoConvolutionMAC: every sample history and handshake schedule against the direct convolution sum."""
from mc.runner import Cfg
from mc.dsp import CPP as DSP

ASSUMPTIONS = ["input consists of pairs of one first (left) and one last (right) sample, in either order", "the sum is divided by 2**bitwidth, rounding down, and wrapped to the sample width",
               "a pair is answered within taps+slices+16 cycles plus waiting time", "LEN>0: at most LEN non-zero sample pairs per run; DENSE: one periodic sequence of dense samples with every handshake timing"]

CPP = DSP + r"""
static const i64 TL[]={TAPL}, TR[]={TAPR};
static const i64 AB[]={ALPHA};
struct Mon { u16 c; i32 l[NT], r[NT]; u8 v, side, half; i32 s; u8 pend, held; i32 e0, e1; u8 wait, iw; u8 len; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static i64 val(Mon& m, Ch& ch){
#ifdef FULL
  return sx(ch(1<<BW),BW);
#elif DENSE
  i64 v=sx((m.c*2654435761u)>>8,BW); m.c=(m.c+1)%DENSE; return v;
#else
  if(m.len>=2*LEN) return 0;
  i64 v=AB[ch(sizeof AB/8)]; if(v) m.len++; return v;
#endif
}
static int step(D& d, Mon& m, Ch& ch){
  if(!m.v && (!m.pend || EAGER) && (FAST || ch(2))){ m.v=1; if(ORDER && !m.half) m.side=ch(2); m.s=val(m,ch); }
  int rdy=ch(2);
  d.i__valid=m.v; d.i__payload=m.v? mk(m.s,BW) : mk(0x2AAAAAAA,BW); d.i__first= m.v? !m.side : 1; d.i__last= m.v? m.side : 1; d.o__ready=rdy;
  d.comb();
  if(m.held) CHECK(d.o__valid,"output valid is taken back before it was accepted");
  if(d.o__valid){
    CHECK(m.pend,"output without a complete input pair");
    int second = m.pend==1; i64 e= second? m.e1 : m.e0;
    CHECK(d.o__first==!second && d.o__last==second,"%s output is flagged first=%d last=%d",second?"second":"first",(int)d.o__first,(int)d.o__last);
    CHECK(sx(d.o__payload,BW)==e,"%s output is %lld, the convolution is %lld",second?"right":"left",(long long)sx(d.o__payload,BW),(long long)e);
    COVERIF(e>0,"positive"); COVERIF(e<0,"negative"); COVERIF(!rdy,"back-pressure");
    if(rdy){ m.pend--; m.held=0; if(second){ m.e0=m.e1=0; COVER("pair"); } } else m.held=1;
    m.wait=0;
  } else if(m.pend) CHECK(++m.wait<=NT+NS+16,"no output for a complete input pair");
  bool acc=m.v && d.i__ready;
  if(acc){
    CHECK(!m.pend,"next sample accepted before the output of the previous pair"); m.iw=0;
    if(!m.side){ for(int i=NT-1;i>0;i--) m.l[i]=m.l[i-1]; m.l[0]=m.s; }
    else { for(int i=NT-1;i>0;i--) m.r[i]=m.r[i-1]; m.r[0]=m.s; COVERIF(!m.half,"right sample first"); }
    m.half^=1;
    if(!m.half){
      i128 a=0,b=0;
      for(int i=0;i<NT;i++){
        a+=(i128)m.l[i]*TL[i]; b+=(i128)m.r[i]*(MODE==2? TR[i] : TL[i]);
        if(MODE==1){ a+=(i128)m.r[i]*TR[i]; b+=(i128)m.l[i]*TR[i]; }
      }
      m.e0=sx(mk(fsh(a,BW),BW),BW); m.e1=sx(mk(fsh(b,BW),BW),BW); m.pend=2; m.wait=0;
    }
    m.side^=1; if(ORDER && !m.half) m.side=0; m.v=0; m.s=0;
  } else if(m.v && !m.pend) CHECK(++m.iw<=8,"input is not accepted");
  tick(d);
  return OK_;
}
"""


def configs(tier):
    import contextlib
    import io
    import numpy as np
    from amlib.dsp.convolution.mac import StereoConvolutionMAC, ConvolutionMode

    def mk(taps, slices, bw, mode, rate=1000, **dbg):
        def build():
            with contextlib.redirect_stdout(io.StringIO()):
                # the documented ratio of taps to clock cycles per sample determines the number of slices
                t = StereoConvolutionMAC(taps=np.array(taps, dtype=np.int32), samplerate=rate, clockfrequency=rate * len(taps) / slices, bitwidth=bw, **dbg,
                                         convolutionMode=ConvolutionMode(mode))
            i, o = t.signal_in, t.signal_out
            return t, {"i__valid": i.valid, "i__payload": i.payload, "i__first": i.first, "i__last": i.last, "o__ready": o.ready}, \
                {"i__ready": i.ready, "o__valid": o.valid, "o__payload": o.payload, "o__first": o.first, "o__last": o.last}
        return build
    out = []

    def add(name, taps, slices, bw, mode, full=False, ln=2, alpha=None, dense=0, eager=1, fast=0, order=0, cov=(), mka={}, **kw):
        c = {"NT": len(taps), "NS": slices, "BW": bw, "MODE": mode, "LEN": ln, "DENSE": dense, "EAGER": eager, "FAST": fast, "ORDER": order, "TAPL": ",".join(f"{a}ll" for a, b in taps),
             "TAPR": ",".join(f"{b}ll" for a, b in taps), "ALPHA": ",".join(str(x) for x in (alpha or [(1 << bw - 1) - 1, -(1 << bw - 1), 0]))}
        if full:
            c["FULL"] = 1
        out.append(Cfg(name, mk(taps, slices, bw, mode, **mka), CPP, c, covers=["positive", "negative", "back-pressure", "pair"] + list(cov), ntraces=4, max_states=20_000_000, cost=2, **kw))
    P = [(7, 3), (-5, 6), (4, -8), (-1, -1), (6, -2), (-8, 7), (-3, 5), (2, -4)]
    for mode, nm in ((1, "crossfeed"), (2, "stereo"), (3, "mono")):
        add(f"{nm}_t1_s1_b3_all", [(3, -4)], 1, 3, mode, full=True, eager=0, fast=1)
        add(f"{nm}_t2_s2_b4", P[:2], 2, 4, mode, ln=3, alpha=[7, -8, 3, 0])
        add(f"{nm}_t4_s2_b4", P[:4], 2, 4, mode, ln=2, alpha=[7, -8, 0], eager=0)
        add(f"{nm}_t4_s4_b4", P[:4], 4, 4, mode, ln=2, alpha=[7, -8, 0], fast=1)
        add(f"{nm}_t6_s3_b5", [(2 * a + 1, 2 * b + 1) for a, b in P[:6]], 3, 5, mode, ln=1, alpha=[15, -16, 0], fast=1)
        add(f"{nm}_t8_s1_b4", P, 1, 4, mode, ln=1, alpha=[7, -8, 0], fast=1)
    add("crossfeed_t8_s4_b24", [(a * 1048576 + 77, b * 1048576 + 5 - a) for a, b in P], 4, 24, 1, ln=1, alpha=[8388607, -8388608, 0], fast=1)
    add("stereo_t4_s2_b16", [(a * 4096 + 7, b * 4096 + 5) for a, b in P[:4]], 2, 16, 2, ln=2, alpha=[32767, -32768, 12345, 0], fast=1, eager=0)
    add("crossfeed_t4_s2_b4_order", P[:4], 2, 4, 1, ln=2, alpha=[7, -8, 0], order=1, cov=["right sample first"])
    add("stereo_t3_s1_b4_order", P[:3], 1, 4, 2, ln=2, alpha=[7, -8, 0], order=1, cov=["right sample first"])
    add("crossfeed_t4_s2_b4_debug", P[:4], 2, 4, 1, ln=2, alpha=[7, -8, 0], fast=1, mka={"debug": True, "rate": 48000})
    add("stereo_t3_s3_b5_debug", P[:3], 3, 5, 2, ln=2, alpha=[15, -16, 0], fast=1, mka={"debug": True, "rate": 44100})
    Q = [((k * 7919 + 13) % 4093 - 2046, (k * 104729 + 5) % 4091 - 2045) for k in range(64)]
    add("crossfeed_t16_s4_b13_dense", Q[:16], 4, 13, 1, dense=90)
    add("stereo_t12_s3_b16_dense", Q[:12], 3, 16, 2, dense=70, eager=0)
    add("mono_t15_s5_b24_dense", Q[:15], 5, 24, 3, dense=74)
    add("stereo_t9_s1_b13_dense", Q[:9], 1, 13, 2, dense=62)
    add("crossfeed_t64_s8_b16_dense", Q, 8, 16, 1, dense=300, fast=1)
    add("crossfeed_t10_s10_b24_dense", Q[:10], 10, 24, 1, dense=74, eager=0)
    add("stereo_t33_s3_b16_dense", Q[:33], 3, 16, 2, dense=150, fast=1)
    if tier == "thorough":
        for mode in (1, 2, 3):
            add(f"t_{mode}_t2_s2_b3_all", [(3, -4), (-2, 1)], 2, 3, mode, full=True, eager=0, fast=1)
            add(f"t_{mode}_t2_s1_b3_all", [(-4, 3), (-1, -3)], 1, 3, mode, full=True, eager=0, fast=1)
            add(f"t_{mode}_t8_s4_b4", P, 4, 4, mode, ln=2, alpha=[7, -8, 0])
            add(f"t_{mode}_t8_s2_b4", P, 2, 4, mode, ln=2, alpha=[7, -8, 0])
        add("t_t32_s4_b24", [(a * 104857 * (k + 1) + 77, b * 104857 + k) for k in range(4) for a, b in P], 4, 24, 1, ln=1, alpha=[8388607, -8388608, 0], fast=1, eager=0)
    return out

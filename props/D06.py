"""FractionalResampler: all input gaps and output back-pressure against zero stuffing, convolution and decimation."""
from mc.runner import Cfg
from mc.dsp import CPP as DSP

ASSUMPTIONS = ["IIR filtering (declared untested by its documentation) with runs of at most LEN samples; FIR sample widths up to 16 bits (limit asserted by the filter)",
               "the decimation phase starts with the first sample; the filter chain delays by one step of the upsampled rate per stage",
               "once all inputs are given, every output that belongs to them appears within up+down+8 cycles of the previous one",
               "LEN>0: at most LEN input samples per run; LEN=0: unbounded; DENSE: one periodic dense sample sequence with every handshake timing"]

CPP = DSP + r"""
static const i64 T[]={TAPS};
static const i64 A[]={ATAPS};
static const i64 AB[]={ALPHA};
#define NQ (2*UP+4)
struct Mon { i32 x[NI][NT]; i32 y[NI][NY+1]; i32 q[NQ]; u16 c, n, ph; u8 v; i32 s; u16 len; u8 held; i32 hd; u16 wait, iwait; };
static i64 conv(i32*x,i32*y){ i64 s=0; for(int i=0;i<NT;i++) s+=fsh((i128)x[i]*T[i],FW); for(int i=0;i<NY;i++) s-=fsh((i128)y[i]*A[i],FW); return sx(mk(s,HB),HB); }
static int push(Mon& m, i64 v){       // one step of the upsampled rate
  i64 o[NI]; for(int k=0;k<NI;k++) o[k]=conv(m.x[k],m.y[k]);
  if(m.ph==0){ CHECK(m.n<NQ,"more input accepted than output can be buffered"); m.q[m.n++]=sx(mk(o[NI-1],BW),BW); }
  m.ph=(m.ph+1)%DOWN;
  for(int k=NI-1;k>=0;k--){ for(int i=NT-1;i>0;i--) m.x[k][i]=m.x[k][i-1]; m.x[k][0]= k? o[k-1] : v;
    if(NY){ for(int i=NY-1;i>0;i--) m.y[k][i]=m.y[k][i-1]; m.y[k][0]=o[k]; } }
  return OK_;
}
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  if(!m.v && (!LEN || m.len<LEN)){ if(STREAMING || ch(2)){ m.v=1; 
#if DENSE
    m.s=sx((m.c*2654435761u)>>8,BW); m.c=(m.c+1)%DENSE; if(LEN) m.len++;
#else
    m.s=AB[ch(sizeof AB/8)]; if(LEN) m.len++;
#endif
  } }
  int r= READY? 1 : ch(2);
  d.in__valid=m.v; d.in__payload= m.v? mk(m.s,BW) : mk(0x55555555,BW); d.out__ready=r;
  d.comb();
  if(m.held){ CHECK(d.out__valid,"valid is taken back before the sample was accepted"); CHECK(sx(d.out__payload,BW)==m.hd,"output changes while it waits"); }
  if(d.out__valid){
    i64 o=sx(d.out__payload,BW);
    CHECK(m.n,"output sample without input"); CHECK(o==m.q[0],"output is %lld instead of %lld",(long long)o,(long long)m.q[0]);
    COVERIF(o>0,"positive"); COVERIF(o<0,"negative"); COVERIF(!r,"back-pressure");
    if(r){ for(int i=0;i+1<NQ;i++) m.q[i]=m.q[i+1]; m.q[--m.n]=0; m.held=0; m.hd=0; COVER("accepted"); } else { m.held=1; m.hd=o; }
    m.wait=0; 
  } else if(m.n) { CHECK(++m.wait<=UP+DOWN+8,"%d output samples are due but none is offered",m.n); } else m.wait=0;
  if(m.v && d.in__ready){ 
    for(int k=0;k<UP;k++){ RUN(push(m, k? 0 : sx(mk(m.s*PRE,HB),HB))); }
    m.v=0; m.s=0; m.iwait=0; COVERIF(m.n>1,"several outputs pending");
  } else if(m.v && !m.n){ CHECK(++m.iwait<=UP+DOWN+8,"input is not accepted although all output has been taken"); } else m.iwait=0;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from math import ceil
    from amlib.dsp.resampler import FractionalResampler
    from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
    from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter

    def mk(up, down, order, bw, pre, ni, fs, cut, **kw):
        def build():
            t = FractionalResampler(input_samplerate=fs, upsample_factor=up, downsample_factor=down, filter_instances=ni, filter_order=order,
                                    filter_cutoff=cut, bitwidth=bw, prescale=pre, verbose=False, **kw)
            i, o = t.signal_in, t.signal_out
            return t, {"in__valid": i.valid, "in__payload": i.payload, "out__ready": o.ready}, {"in__ready": i.ready, "out__valid": o.valid, "out__payload": o.payload}
        return build
    out = []

    def add(name, up, down, order, bw=8, pre=2, ni=1, fs=48000, cut=16000, ln=0, alpha=None, dense=0, streaming=0, ready=0, iir=0, cov=(), **kw):
        hb = int(ceil(bw / 8) * 9)
        if iir:
            f = FixedPointIIRFilter(samplerate=fs * up, bitwidth=hb, fraction_width=18, cutoff_freq=cut, filter_order=order, verbose=False)
            taps, at, dp = f.b, f.a[1:], up - 1
        else:
            f = FixedPointFIRFilter(samplerate=fs * up, bitwidth=hb, fraction_width=18, cutoff_freq=cut, filter_order=order, verbose=False)
            taps, at, dp = f.taps, [], 4
        c = {"UP": up, "DOWN": down, "NT": len(taps), "NY": len(at), "ATAPS": ",".join(f"{t}ll" for t in at) or "0", "NI": ni, "BW": bw, "HB": hb, "FW": 18, "PRE": dp if pre is None else pre, "LEN": ln, "DENSE": dense, "STREAMING": streaming, "READY": ready,
             "TAPS": ",".join(f"{t}ll" for t in taps), "ALPHA": ",".join(str(x) for x in (alpha or [(1 << bw - 1) - 1, -(1 << bw - 1)]))}
        out.append(Cfg(name, mk(up, down, order, bw, pre, ni, fs, cut, **({"filter_structure": "iir"} if iir else {})), CPP, c,
                       covers=["positive", "negative", "accepted"] + ([] if ready else ["back-pressure"]) + list(cov), ntraces=4, max_states=20_000_000, cost=2, **kw))
    add("1_1_o2", 1, 1, 2)
    add("2_1_o3", 2, 1, 3, cov=["several outputs pending"])
    add("1_2_o3", 1, 2, 3)
    add("3_2_o4", 3, 2, 4, cov=["several outputs pending"])
    add("2_3_o4", 2, 3, 4)
    add("4_3_o5_b4", 4, 3, 5, alpha=[127, -100])
    add("6_7_o24_b16", 6, 7, 24, bw=16, pre=None, fs=56000, cut=20000, ln=9, alpha=[32767, -32768])
    add("3_4_o6_2stages_b16", 3, 4, 6, bw=16, pre=4, ni=2, ln=9)
    add("2_3_o5_3stages_b12", 2, 3, 5, bw=12, pre=8, ni=3, ln=6, alpha=[2047, -2048])
    add("3_2_o4_b9_pre1", 3, 2, 4, bw=9, pre=1, ln=7, alpha=[255, -256])
    add("5_3_stream", 5, 3, 10, streaming=1, ln=9, alpha=[127, -128, 3])
    add("6_5_always_ready", 6, 5, 12, bw=16, pre=None, ready=1, ln=6, alpha=[32767, -32768, 12345])
    add("7_8_o24_b16_dense", 7, 8, 24, bw=16, pre=None, dense=40, fs=48000, cut=16000)
    add("8_7_o24_b16_dense", 8, 7, 24, bw=16, pre=None, dense=35, fs=42000, cut=16000)
    add("160_147_o24_b16_dense", 160, 147, 24, bw=16, pre=None, dense=147, ready=1, streaming=1, fs=44100, cut=20000)
    add("320_147_o24_b16_dense", 320, 147, 24, bw=16, pre=None, dense=16, ln=120, ready=1, streaming=1, fs=44100, cut=20000, cov=["several outputs pending"])
    add("147_320_o24_b16_dense", 147, 320, 24, bw=16, pre=None, dense=16, ready=1, streaming=1, fs=96000, cut=20000)
    add("12_1_o16_b12_dense", 12, 1, 16, bw=12, pre=12, dense=16, cov=["several outputs pending"])
    add("1_12_o16_b12_dense", 1, 12, 16, bw=12, pre=1, dense=48, cut=4000)
    add("3_17_o9_2stages_dense", 3, 17, 9, bw=10, pre=3, ni=2, dense=51)
    add("iir_3_2_o1", 3, 2, 1, bw=8, pre=None, ln=7, iir=1)
    add("iir_6_7_o2_b16", 6, 7, 2, bw=16, pre=None, fs=56000, cut=20000, ln=6, alpha=[30000, -30000], iir=1)
    add("iir_2_3_o2_2stages_dense", 2, 3, 2, bw=12, pre=4, ni=2, dense=64, ln=40, iir=1)
    if tier == "thorough":
        add("t_3_5_o6", 3, 5, 6, alpha=[127, -128, 5])
        add("t_4_1_o8", 4, 1, 8)
        add("t_8_7_o24", 8, 7, 24, bw=16, pre=None, ln=13)
        add("t_7_8_o24_2", 7, 8, 24, bw=16, pre=None, ni=2, ln=12)
    return out

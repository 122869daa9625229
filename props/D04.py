"""FixedPointCICFilter: every +-1 input history against cascaded moving sums (finite impulse response), not integrators."""
from mc.runner import Cfg
from mc.dsp import CPP as DSP

ASSUMPTIONS = ["inputs are +1 or -1 (documented); decimation >= 2",
               "latency: stages-1 input samples plus stages output samples; full scale 2**ceil(stages*log2(decimation)), scaled down to the output width only if it does not fit; "
               "a sum of exactly full scale appears as the largest output",
               "LEN>0: histories of at most LEN samples with at most SW sign changes; LEN=0: unbounded histories (all reachable integrator states)"]

CPP = DSP + r"""
static const i64 H[]={HTAPS};
#define NH (ST*(R-1)+1)
#define NX (NH+ST-1)
struct Mon { i8 u[NX]; i32 q[ST+1]; u16 len; u8 sw, ph, due, age; i8 cur; i32 out; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int en; i64 v=1;
  if(GAPS) en=ch(2); else en=1;
  if(en){
    if(LEN){ ASSUME(m.len<LEN); if(!m.cur) m.cur=ch(2)?1:-1; else if(m.sw<SW && ch(2)){ m.cur=-m.cur; m.sw++; } v=m.cur; m.len++; }
    else v=ch(2)?1:-1;
  } else v=-1;
  d.e=en; d.i=mk(v,BW);
  d.comb();
  i64 o=sx(d.o,BW);
  if(d.s){
    CHECK(m.due,"output strobe although no decimation period has ended"); m.due=0;
    i64 y=m.q[ST]; i64 e = fsh(y,SHIFT); if(e>(1ll<<(BW-1))-1) e=(1ll<<(BW-1))-1;
    CHECK(o==e,"output is %lld, the moving sum is %lld (scaled %lld)",(long long)o,(long long)y,(long long)e); m.out=o;
    COVERIF(o>0,"positive"); COVERIF(o<0,"negative"); COVERIF(y==FULLSCALE,"full scale"); COVERIF(y==-(i64)FULLSCALE,"negative full scale");
  } else {
    CHECK(o==m.out,"output changes without a strobe");
    if(m.due) CHECK(++m.age<=3,"no output strobe at the end of a decimation period");
  }
  if(en){
    for(int i=NX-1;i>0;i--) m.u[i]=m.u[i-1]; m.u[0]=v;
    if(++m.ph==R){
      m.ph=0; CHECK(!m.due,"output strobe too late"); m.due=1; m.age=0;
      for(int i=ST;i>0;i--) m.q[i]=m.q[i-1];
      i64 s=0; for(int k=0;k<NH;k++) s+=H[k]*m.u[k+ST-1]; m.q[0]=s;
    }
  }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from math import ceil, log2
    from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter

    def mk(bw, st, r):
        def build():
            t = FixedPointCICFilter(bitwidth=bw, filter_stage=st, decimation=r, **({} if st % 2 else {"verbose": False}))
            return t, {"e": t.strobe_in, "i": t.signal_in}, {"o": t.signal_out, "s": t.strobe_out}
        return build
    out = []

    def add(name, bw, st, r, ln=0, sw=2, gaps=1, cov=("positive", "negative"), fs=True, **kw):
        h = [1]
        for _ in range(st):
            h = [sum(h[j] for j in range(max(0, k - r + 1), min(len(h), k + 1))) for k in range(len(h) + r - 1)]
        full = 1
        while full < r ** st:
            full *= 2
        w = max(full.bit_length(), bw)
        c = {"ST": st, "R": r, "BW": bw, "LEN": ln, "SW": sw, "GAPS": gaps, "HTAPS": ",".join(map(str, h)), "SHIFT": w - bw, "FULLSCALE": r ** st}
        out.append(Cfg(name, mk(bw, st, r), CPP, c, covers=list(cov) + (["full scale", "negative full scale"] if fs else []), ntraces=4, max_states=20_000_000, cost=2, **kw))
    add("s1_r2_b3", 3, 1, 2)
    add("s1_r4_b2", 2, 1, 4)
    add("s2_r2_b3", 3, 2, 2)
    add("s2_r3_b4", 4, 2, 3, ln=17, sw=20)
    add("s2_r4_b8", 8, 2, 4, ln=19, sw=20, gaps=0)
    add("s3_r2_b4", 4, 3, 2, ln=18, sw=20, gaps=0)
    add("s1_r7_b5", 5, 1, 7)
    add("s4_r12_b18", 18, 4, 12, ln=200, sw=2, gaps=0)
    add("s3_r16_b10", 10, 3, 16, ln=160, sw=2, gaps=0)
    add("s5_r8_b18", 18, 5, 8, ln=160, sw=2, gaps=0)
    add("s1_r32_b16", 16, 1, 32, ln=200, sw=2, gaps=0)
    add("s2_r17_b12", 12, 2, 17, ln=160, sw=2, gaps=0)
    add("s4_r24_b16", 16, 4, 24, ln=300, sw=2, gaps=0)
    add("s7_r4_b18", 18, 7, 4, ln=120, sw=2, gaps=0)
    if tier == "thorough":
        add("t_s2_r5_b4", 4, 2, 5, ln=22, sw=30, gaps=0)
        add("t_s3_r3_b4", 4, 3, 3, ln=22, sw=24, gaps=0)
        add("t_s4_r2_b3", 3, 4, 2, ln=22, sw=24, gaps=0)
        add("t_s4_r12_b18", 18, 4, 12, ln=125, sw=3, gaps=0)
        add("t_s6_r16_b16", 16, 6, 16, ln=300, sw=2, gaps=0)
    return out

"""FixedPointFFT: whole transforms over all frames from a bounded alphabet against a bit-exact reference that is itself checked against the DFT."""
from mc.runner import Cfg
from mc.dsp import CPP as DSP

ASSUMPTIONS = ["pts >= 4; input strobes at least 4 cycles apart, window strobes at least 3; samples are valid in the strobe cycle only",
               "constant-geometry radix-2 butterflies, every product rounded down, results kept with log2(pts) guard bits and shifted down at the output",
               "output strobe k of a transform carries bin k", "start requests during an operation are ignored",
               "default window: 4-term Blackman-Harris, coefficients rounded towards zero"]

CPP = DSP + r"""
#include <math.h>
static const i64 WR[]={TWR}, WI[]={TWI};
static const i64 DR[]={DWIN};                       // default window
static const i64 LR[]={LWR}, LI[]={LWI};            // loaded windows (NLW of them)
static const i64 AI[]={ALPHAI}, AQ[]={ALPHAQ};
#define BWID (W+NST)
enum { IDLE, LOADW, FEED, RUNNING };
struct Mon { u8 st, cnt, gap, run, loaded; u16 k; u32 age; i32 xr[PTS], xi[PTS]; u8 nz; u8 lw; u8 done, term; };
static i64 tr(i64 v,int w){ return sx(mk(v,w),w); }
static void fft(Mon& m){
  i64 ar[PTS],ai[PTS],br[PTS],bi[PTS];
  for(int i=0;i<PTS;i++){ int r=0; for(int b=0;b<NST;b++) if(i>>b&1) r|=1<<(NST-1-b); ar[r]=m.xr[i]; ai[r]=m.xi[i]; }
  for(int s=0;s<NST;s++){
    int mask = ~((1<<(NST-1-s))-1) & (PTS-1);
    for(int k=0;k<PTS/2;k++){
      int t=(k+PTS/2)&mask; i64 R=ar[2*k+1], I=ai[2*k+1];
      i64 pr=tr(tr(fsh((i128)R*WR[t],W-1),BWID)-tr(fsh((i128)I*WI[t],W-1),BWID),BWID);
      i64 pi=tr(tr(fsh((i128)R*WI[t],W-1),BWID)+tr(fsh((i128)I*WR[t],W-1),BWID),BWID);
      br[k+PTS/2]=tr(ar[2*k]+pr,BWID); bi[k+PTS/2]=tr(ai[2*k]+pi,BWID);
      br[k]=tr(ar[2*k]-pr,BWID); bi[k]=tr(ai[2*k]-pi,BWID);
    }
    for(int i=0;i<PTS;i++){ ar[i]=br[i]; ai[i]=bi[i]; }
  }
  for(int i=0;i<PTS;i++){ br[i]=tr(ar[i]>>NST,W); bi[i]=tr(ai[i]>>NST,W); }
  for(int i=0;i<PTS;i++){ m.xr[i]=br[i]; m.xi[i]=bi[i]; }
}
static bool sane(Mon& in, Mon& out){     // the reference is the DFT up to rounding (unless it overflows)
  for(int k=0;k<PTS;k++){
    double r=0,i=0; for(int n=0;n<PTS;n++){ double a=-2*M_PI*k*n/PTS; r+=in.xr[n]*cos(a)-in.xi[n]*sin(a); i+=in.xr[n]*sin(a)+in.xi[n]*cos(a); }
    r/=PTS; i/=PTS; double lim=(1ll<<(W-1))-TOL;
    if(fabs(r)>=lim||fabs(i)>=lim) continue;
    if(fabs(r-out.xr[k])>TOL||fabs(i-out.xi[k])>TOL) return false;
  }
  return true;
}
static int init(D& d, Mon& m, Ch& ch){ m.done=1; m.gap=2; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.comb();
  bool strobe=false, wstrobe=false; int st=0, ws=0; i64 vi=0,vq=0, a=0,b=0;
  if(m.gap) m.gap--;
  else switch(m.st){
    case IDLE:
      if(m.run>=RUNS) ASSUME(false);
      if(NLW && m.lw<NLW && (m.run || !DEFFIRST || m.lw) && ch(2)){ ws=1; m.lw++; break; }
      st=1; if(GAPS && m.done && ch(2)) st=0;
      break;
    case LOADW: a=LR[(m.lw-1)*PTS+m.k]; b=LI[(m.lw-1)*PTS+m.k]; wstrobe=true; break;
    case FEED:
      strobe=true;
      if(DENSE){ u32 z=m.k+m.run*PTS+1; vi=sx((z*2654435761u)>>8,W); vq=sx((z*2246822519u)>>8,W); }
      else if(m.run && SECOND){ vi=AI[(m.k*m.k+m.run)%NAI]; vq=AQ[(m.k+2*m.run)%NAQ]; }
      else if(NZ && m.nz>=NZ){ vi=0; vq=0; }
      else { vi=AI[ch(NAI)]; vq=AQ[ch(NAQ)]; if(NZ && (vi||vq)) m.nz++; }
      break;
  }
  if(BUSY && m.st!=IDLE && !d.done){ int c=ch(3); if(c==1) st=1; if(c==2) ws=1; COVERIF(c,"start while busy"); }
  d.start=st; d.wf_start=ws; d.strobe_in=strobe; d.wf_strobe=wstrobe;
  d.in_i = mk(strobe? vi : 0x2aaaaaaa,W); d.in_q = mk(strobe? vq : 0x15555555,W);
  d.wf_real= mk(wstrobe? a : 0x2aaaaaaa,W+1); d.wf_imag= mk(wstrobe? b : 0x15555555,W+1);
  d.comb();
  if(d.strobe_out){
    CHECK(m.st==RUNNING && m.k<PTS,"output strobe outside a transform");
    i64 r=sx(d.out_real,W), i=sx(d.out_imag,W);
    CHECK(r==m.xr[m.k] && i==m.xi[m.k],"bin %d is %lld%+lldi, the transform is %d%+di",m.k,(long long)r,(long long)i,m.xr[m.k],m.xi[m.k]);
    COVERIF(r<0,"negative"); COVERIF(i>0 && m.k==PTS-1,"last bin"); m.xr[m.k]=m.xi[m.k]=0; m.k++; m.age=0;
  }
  switch(m.st){
    case IDLE: CHECK(d.done,"not done although nothing is running"); break;
    case LOADW: if(m.term && d.done){ m.st=IDLE; m.gap=0; m.k=0; m.loaded=m.lw; m.term=0; COVER("window loaded"); } else { CHECK(!d.done || m.age<1,"done while the window is being loaded"); m.age=1; }
      if(m.term) CHECK(++m.cnt<20,"loading the window does not finish"); break;
    case FEED: CHECK(!d.done || m.age<1,"done although the frame is not complete"); m.age=1; break;
    case RUNNING:
      CHECK(++m.age<=PTS*NST*20+100,"transform does not finish");
      if(m.k==PTS && m.age>20) CHECK(d.done,"done is not reported after the last bin");
      if(d.done){ CHECK(m.k==PTS,"done after %d of %d bins",m.k,PTS); m.st=IDLE; m.run++; m.k=0; m.age=0; m.nz=0; m.gap=0; COVER("transform"); COVERIF(m.run==2,"second transform"); }
      break;
  }
  // consequences of what was driven
  if(m.st==IDLE){ if(st && d.done && m.gap==0){ m.st=FEED; m.k=0; m.gap=3; m.age=0; } else if(ws && d.done){ m.st=LOADW; m.k=0; m.gap=3; m.age=0; m.cnt=0; } }
  else if(m.st==LOADW && wstrobe){ m.k++; m.gap= 2 + (GAPS? ch(2):0); if(m.k==PTS){ m.term=1; m.k=0; m.gap=200; m.cnt=0; } }
  else if(m.st==FEED && strobe){
    i64 wr= m.loaded? LR[(m.loaded-1)*PTS+m.k] : DR[m.k], wi= m.loaded? LI[(m.loaded-1)*PTS+m.k] : 0;
    m.xr[m.k]=tr(fsh((i128)wr*vi-(i128)wi*vq,W-1),W); m.xi[m.k]=tr(fsh((i128)wr*vq+(i128)wi*vi,W-1),W);
    m.k++; m.gap=3+(GAPS? ch(3):0);
    if(m.k==PTS){ Mon in=m; fft(m); CHECK(sane(in,m),"reference error"); m.st=RUNNING; m.k=0; m.gap=0; m.age=0; }
  }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from math import cos, sin, pi, log2
    from amlib.dsp.fixedpointfft import FixedPointFFT

    def mk(w, pts):
        def build():
            t = FixedPointFFT(bitwidth=w, pts=pts, verbose=False)
            n = ["start", "in_i", "in_q", "strobe_in", "wf_start", "wf_strobe", "wf_real", "wf_imag"]
            return t, {x: getattr(t, x) for x in n}, {x: getattr(t, x) for x in ["done", "out_real", "out_imag", "strobe_out"]}
        return build
    out = []
    j = lambda l: ",".join(f"{x}ll" for x in l)

    def add(name, w, pts, ai, aq, nz=0, runs=1, second=1, dense=0, wins=(), gaps=0, busy=0, deffirst=0, cov=("negative", "last bin", "transform"), **kw):
        full = 1 << (w - 1)
        c = {"W": w, "PTS": pts, "NST": int(log2(pts)), "NZ": nz, "RUNS": runs, "DENSE": dense, "SECOND": second, "NLW": len(wins), "GAPS": gaps, "BUSY": busy, "DEFFIRST": deffirst, "TOL": 4 + int(log2(pts)),
             "TWR": j(int(cos(2 * pi * k / pts) * full) for k in range(pts)), "TWI": j(int(-sin(2 * pi * k / pts) * full) for k in range(pts)),
             "DWIN": j(int((0.35875 - 0.48829 * cos(k * 2 * pi / pts) + 0.14128 * cos(k * 4 * pi / pts) - 0.01168 * cos(k * 6 * pi / pts)) * full) for k in range(pts)),
             "LWR": j([x for r, i in wins for x in r] or [0]), "LWI": j([x for r, i in wins for x in i] or [0]),
             "ALPHAI": j(ai), "ALPHAQ": j(aq), "NAI": len(ai), "NAQ": len(aq)}
        cov = list(cov) + (["second transform"] if runs > 1 else []) + (["window loaded"] if wins else []) + (["start while busy"] if busy else [])
        out.append(Cfg(name, mk(w, pts), CPP, c, covers=cov, ntraces=3, max_states=20_000_000, cost=2, **kw))

    def rect(w, pts):
        return ([(1 << w - 1) - 1] * pts, [0] * pts)

    def asym(w, pts):
        f = (1 << w - 1) - 1
        return ([f - k * f // (2 * pts) for k in range(pts)], [0] * pts)

    def cplx(w, pts):
        f = (1 << w - 1) - 1
        return ([f * (k + 1) // (2 * pts) for k in range(pts)], [-f * (pts - k) // (2 * pts) for k in range(pts)])
    def extreme(w, pts):
        f = 1 << w
        v = [f - 1, -f, f // 2, -f // 2 - 1, f // 2 - 1]
        return ([v[k % 5] for k in range(pts)], [v[(2 * k + 1) % 5] for k in range(pts)])
    M = lambda w: (1 << w - 1) - 1
    add("p4_w8_default", 8, 4, [M(8), -M(8) - 1, 0], [M(8), -M(8) - 1], runs=2)
    add("p4_w16_windows", 16, 4, [M(16), -M(16) - 1, 77], [0, -12345], runs=2, wins=[asym(16, 4), cplx(16, 4)], deffirst=1)
    add("p4_w6_gaps_busy", 6, 4, [M(6), -M(6) - 1], [5], runs=2, gaps=1, busy=1, wins=[asym(6, 4)])
    add("p8_w12_nz2", 12, 8, [M(12), -M(12) - 1, 0], [M(12), 0], nz=2, runs=2, wins=[rect(12, 8)])
    add("p8_w18_all_signs", 18, 8, [M(18), -M(18) - 1], [-M(18)], runs=1)
    add("p16_w16_nz1", 16, 16, [M(16), -M(16) - 1, 0], [M(16), 0], nz=1, runs=2, wins=[asym(16, 16)])
    add("p32_w18_impulse", 18, 32, [M(18), 0], [0], nz=1, runs=1, wins=[cplx(18, 32)], cov=("negative", "transform"))
    add("p4_w5_extreme_window", 5, 4, [M(5), -M(5) - 1, 3], [M(5), -7, 0], nz=2, runs=2, wins=[extreme(5, 4)])
    add("p8_w7_values", 7, 8, list(range(-64, 64)), [0, 63, -64, 21], nz=1, runs=1, wins=[rect(7, 8)])
    add("p64_w16_ramp", 16, 64, [M(16), -M(16) - 1], [M(16) // 3], nz=1, runs=2, wins=[asym(16, 64)])
    add("p128_w12", 12, 128, [M(12)], [-M(12) // 3], nz=1, runs=2, wins=[cplx(12, 128)])
    add("p256_w10", 10, 256, [0], [0], dense=1, cov=("negative", "transform"))
    add("p32_w18_dense", 18, 32, [0], [0], runs=3, dense=1, wins=[cplx(18, 32)], deffirst=1)
    add("p64_w8_dense", 8, 64, [0], [0], runs=2, dense=1, wins=[rect(8, 64)])
    add("p2_w8", 8, 2, [M(8), -M(8) - 1, 0, 33], [M(8), -M(8) - 1, -5], nz=2, runs=2, gaps=1, wins=[rect(8, 2), cplx(8, 2)], deffirst=1)
    add("p4_w24", 24, 4, [M(24), -M(24) - 1], [M(24), -M(24) - 1, 0], nz=3, runs=2, wins=[rect(24, 4)])
    if tier == "thorough":
        add("t_p4_w10_all9", 10, 4, [M(10), -M(10) - 1, 0], [M(10), -M(10) - 1, 0], runs=2, second=1, wins=[asym(10, 4)])
        add("t_p8_w16_4", 16, 8, [M(16), -M(16) - 1, 0], [9999], nz=0, runs=2)
        add("t_p16_w18_nz2", 18, 16, [M(18), -M(18) - 1, 0], [M(18), 0], nz=2, runs=2, wins=[cplx(18, 16)])
        add("t_p64_w18", 18, 64, [M(18), 0], [0, 777], nz=1, runs=2, wins=[asym(18, 64)])
        add("t_p256_w18_window", 18, 256, [M(18)], [-M(18) // 3], runs=1, wins=[cplx(18, 256)])
    return out

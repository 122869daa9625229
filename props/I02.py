"""AsyncSerialRX: every frame (good, bad parity, missing stop bit), gap, jitter and acknowledge timing within the bounds."""
from amaranth import Record
from mc.runner import Cfg

ASSUMPTIONS = ["divisor >= 5 (as documented); every bit edge may be displaced by up to JIT cycles from its nominal position",
               "after a frame with a missing stop bit the line is idle for at least one frame; the line may meanwhile be reported as one more character",
               "acknowledge is 'ready to take a character' (documented: held asserted while data can be read out): a character that completes while it is low "
               "is dropped with the overflow flag; ready/data keep their value as long as acknowledge stays low",
               "a low pulse of less than half a bit may be reported, but only as a character with a frame error; the line is then idle for one frame",
               "the run-time divisor changes only while the line is idle",
               "a character is reported within one divisor plus 4 cycles (6 behind the pin synchronizer) after the middle of its stop bit"]

CPP = r"""
enum { NONE, MARK, SPACE, EVEN, ODD };
#define NFB (1+WIDTH+(PAR!=NONE)+1)
#define FULL ((1<<WIDTH)-1)
#if WIDTH>16
typedef u64 WT;
#define PARITY(x) __builtin_parityll(x)
#else
typedef u16 WT;
#define PARITY(x) __builtin_parity(x)
#endif
typedef unsigned long long ull;
#ifdef RTDIVS
static const u32 DV[]={RTDIVS};
#define DIV ((int)DV[m.dv])
#endif
#ifndef GLITCH
#define GLITCH 0
#endif
#ifndef LAT
#define LAT 0
#endif
struct Mon {
  u8 act, bit, badp, bads; u16 cyc, gap; WT chr;       // line generator
  u8 low, exp, expp, exps; u16 age; WT expc;                     // expected report
  u8 spur; u16 spurt;
  u8 rdy, e, pack; WT data;                             // previous outputs / acknowledge
  i8 jit, njit; u8 dv, gl; u16 emin, emax;
};
static int pbit(WT c){ return PAR==MARK?1: PAR==SPACE?0: PAR==EVEN?PARITY(c): !PARITY(c); }
static int init(D& d, Mon& m, Ch& ch){ m.gap=65535; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  // ---- line
  int line=1;
  if(!m.act){
    if(m.gap) { if(m.gap!=65535) m.gap--; else if(ch(2)) m.gap=0; }
    if(!m.gap && GLITCH && (m.gl=ch(DIV/2))) { m.gap=NFB*DIV+DIV+4+m.gl+LAT; m.spur=2; m.spurt=0; }
    if(!m.gap){
#ifdef RTDIVS
      m.dv=ch(sizeof DV/sizeof*DV);
#endif
      m.act=1; m.bit=0; m.cyc=0; m.jit=0;
#ifdef ALPHA
      static const WT AB[]={ALPHA}; m.chr=AB[ch(sizeof AB/sizeof*AB)];
#else
      m.chr=ch(FULL+1);
#endif
      m.badp = BAD && PAR!=NONE ? ch(2) : 0; m.bads = BAD ? ch(2) : 0;
      m.njit = JIT ? (int)ch(2*JIT+1)-JIT : 0;
    }
  }
  bool done=false;
  if(m.act){
    int b=m.bit;
    line = b==0?0 : b<=WIDTH? (m.chr>>(b-1))&1 : b==NFB-1 ? !m.bads : pbit(m.chr)^m.badp;
    if(m.cyc==0 && b==NFB-1){
      // the frame's content is now completely determined
      CHECK(!m.exp, "previous character %llx never reported", (ull)m.expc);
      m.exp=1; m.emin=DIV/2-JIT; m.emax=DIV+JIT+6+LAT; m.expc=m.chr; m.expp=m.badp; m.exps=m.bads; m.age=0;
    }
    m.cyc++;
    if(m.cyc>=DIV+m.njit-m.jit){ m.cyc=0; m.jit=m.njit; m.bit++; m.njit = JIT && m.bit<NFB-1 ? (int)ch(2*JIT+1)-JIT : 0;
      if(m.bit==NFB){ done=true; } }
  }
  if(m.gl){ line=0; m.gl--; }
  d.i=line;
#ifdef RTDIVS
  d.divisor=DIV;
#endif
  if(done){
    m.act=0; m.bit=0; m.jit=m.njit=0;
    if(m.bads){ m.gap=NFB*DIV+DIV+4; m.spur=1; m.spurt=0; }
    else { m.gap = GAPS ? ch(GAPS) : ch(2)*65535; }
    m.chr=0; m.badp=m.bads=0;
  }
  // ---- acknowledge
  int ack;
  ack = ACKMODE ? ch(2) : 1;
  d.ack=ack;
  d.comb();
  // ---- outputs are registers: what became visible now was decided by the acknowledge of the previous cycle
  int e=d.overflow|d.frame<<1|d.parity<<2;
  if(m.pack){
    if(d.rdy){
      // a report
      bool match = m.exp && m.age>=m.emin && d.data==m.expc && !!d.parity==m.expp && !!d.frame==m.exps && !d.overflow;
      if(match){ m.exp=m.emin=m.emax=0; m.age=0; m.expc=0; COVERIF(m.expp,"parity error"); COVERIF(m.exps,"frame error"); COVERIF(!m.exps&&!m.expp,"good character"); m.exps=m.expp=0; }
      else if(m.spur && !m.exp){ CHECK(m.spur!=2 || d.frame, "a glitch on the idle line is reported as a character without frame error"); COVERIF(m.spur==2,"glitch"); m.spur=0; }
      else CHECK(0, "reported data=%llx overflow=%d frame=%d parity=%d; expected %s %llx frame=%d parity=%d", (ull)d.data,(int)d.overflow,(int)d.frame,(int)d.parity, m.exp?"character":"nothing", (ull)m.expc, m.exps, m.expp);
    } else {
      CHECK(e==m.e && d.data==m.data, "data or error flags change without a character");
    }
  } else {
    CHECK(d.rdy==m.rdy && d.data==m.data, "data or ready change while not acknowledged");
    if(e!=m.e){
      CHECK((e&6)==(m.e&6) && d.overflow, "error flags change to %d while not acknowledged", e);
    }
  }
  // overflow: the character completed while acknowledge was low
  if(!m.pack && d.overflow && !(m.e&1)){ 
    if(m.exp && m.age>=m.emin){ m.exp=m.emin=m.emax=0; m.expc=0; m.exps=m.expp=0; m.age=0; COVER("overflow"); }
    else { CHECK(m.spur, "overflow without a character"); m.spur=0; }
  } else if(!m.pack && (m.e&1) && d.overflow && m.exp && m.age>=m.emin && m.age<=m.emin+2*JIT+4) m.low=1;
  CHECK(!(d.overflow && !(m.e&1) && m.pack), "overflow although acknowledged");
  // a further dropped character is invisible while the flag is already set
  if(m.exp && m.low && m.age>m.emin+2*JIT+4){ m.exp=m.emin=m.emax=0; m.expc=0; m.exps=m.expp=0; m.age=0; COVER("repeated overflow"); }
  if(!m.exp) m.low=0;
  if(m.exp){ m.age++; CHECK(m.age<=m.emax, "character %llx was neither reported nor flagged as overflow", (ull)m.expc); }
  if(m.spur && !m.act){ m.spurt++; if(m.spurt>=NFB*DIV+DIV+2+LAT){ m.spur=0; m.spurt=0; } }
  if(!m.spur) m.spurt=0;
  m.rdy=d.rdy; m.e=e; m.data=d.data; m.pack=ack;
  tick(d);
  return OK_;
}
"""
PARS = ["none", "mark", "space", "even", "odd"]


def configs(tier):
    from amlib.io.serial import AsyncSerialRX, AsyncSerial

    def mk(div, bits, par, whole, rt, pins):
        def build():
            kw = {"divisor_bits": rt} if rt else {}
            if pins:
                kw["pins"] = pads = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])
            if whole:
                a = AsyncSerial(divisor=div, data_bits=bits, parity=par, **kw)
                u, dv = a.rx, a.divisor
            else:
                a = u = AsyncSerialRX(divisor=div, data_bits=bits, parity=par, **kw)
                dv = u.divisor
            ins = {"i": pads.rx.i if pins else u.i, "ack": u.ack}
            if rt:
                ins["divisor"] = dv
            return a, ins, {"rdy": u.rdy, "data": u.data, "overflow": u.err.overflow, "frame": u.err.frame, "parity": u.err.parity}
        return build
    out = []

    def add(div, bits, par, cov=(), whole=False, rt=0, tag="", pins=False, **kw):
        c = dict({"BAD": 0, "GAPS": 0, "JIT": 0, "ACKMODE": 0}, **({} if rt else {"DIV": div}), **({"LAT": 2} if pins else {}), WIDTH=bits, PAR=PARS.index(par), **kw)
        out.append(Cfg(f"d{div}_b{bits}_{par}{tag}", mk(div, bits, par, whole, rt, pins), CPP, c,
                       covers=["good character"] + list(cov), ntraces=4, max_states=30_000_000, cost=2))
    for par in PARS:
        add(5, 8, par, ["frame error"] + (["parity error"] if par != "none" else []), BAD=1, tag="_bad", ALPHA="0x00,0xff,0xa5,0x3c,0x01,0x80")
    add(5, 8, "none", tag="_all", GAPS=4)
    add(6, 8, "even", tag="_all")
    add(8, 8, "odd", ["frame error", "parity error"], BAD=1, JIT=1, tag="_jit", ALPHA="0xa5")
    add(9, 5, "none", JIT=2, tag="_jit", ALPHA="0x15,0x00")
    add(5, 5, "even", ["overflow", "repeated overflow", "frame error", "parity error"], BAD=1, ACKMODE=1, tag="_ack", ALPHA="0x15")
    add(7, 4, "none", ["overflow", "repeated overflow"], ACKMODE=1, tag="_ack", ALPHA="0x5,0xa", GAPS=3)
    add(5, 8, "odd", whole=True, tag="_whole", ALPHA="0xa5,0x3c,0xfe")
    add(5, 8, "even", whole=True, rt=5, tag="_whole_rt", ALPHA="0xa5,0x3c,0xfe", RTDIVS="5,7,12,31")
    add(8, 7, "odd", rt=4, tag="_rt", ALPHA="0x25,0x3c,0x7e", RTDIVS="5,6,15")
    add(5, 8, "odd", tag="_pins", pins=True, ALPHA="0xa5,0x3c,0xfe,0", GAPS=4)
    add(7, 5, "none", whole=True, tag="_wpins", pins=True, GAPS=2)
    add(6, 8, "none", ["glitch"], tag="_glitch", ALPHA="0xa5,0x3c", GLITCH=1)
    add(9, 5, "even", ["glitch"], tag="_glitch", ALPHA="0x15,0", GLITCH=1)
    add(16, 8, "none", tag="_d16", ALPHA="0xa5,0x3c", GAPS=9)
    add(33, 8, "even", tag="_d33", ALPHA="0xa5,0x3c", GAPS=2)
    add(104, 8, "none", ["frame error"], BAD=1, tag="_d104", ALPHA="0xa5,0x3c")
    add(12, 8, "odd", ["frame error", "parity error"], BAD=1, tag="_d12", ALPHA="0xa5,0x3c", GAPS=5)
    add(13, 7, "even", ["overflow", "frame error", "parity error"], BAD=1, ACKMODE=1, tag="_d13", ALPHA="0x25", GAPS=2)
    add(25, 9, "odd", ["frame error", "parity error"], BAD=1, tag="_d25", ALPHA="0x1a5,0x03c", GAPS=3)
    add(20, 8, "none", tag="_jit20", JIT=3, ALPHA="0xa5,0x3c")
    add(64, 6, "odd", tag="_d64", ALPHA="0x25,0x3c", GAPS=2)
    add(868, 8, "none", tag="_d868", ALPHA="0xa5", GAPS=1)
    add(5, 40, "even", ["frame error", "parity error"], BAD=1, tag="_w40", ALPHA="0xa55a0ff123ull,0x8000000000ull,0x5555500001ull", GAPS=2)
    add(5, 30, "none", tag="_w30", ALPHA="0x255a0ff1,0x20000000,0", GAPS=2)
    add(5, 16, "odd", tag="_w16", ALPHA="0xa55a,0x3c01,0xffff,0x8000")
    if tier == "thorough":
        for par in PARS:
            add(16, 8, par, ["frame error"], BAD=1, tag="_bad", GAPS=17)
            add(10, 6, par, ["frame error"], BAD=1, JIT=2, tag="_jit", ALPHA="0x15,0x2a")
        add(6, 6, "odd", ["overflow", "repeated overflow", "frame error", "parity error"], BAD=1, ACKMODE=1, tag="_ack", ALPHA="0x15,0x2a", GAPS=8)
        add(104, 8, "even", tag="_d104", ALPHA="0xa5,0x3c")
    return out

"""AsyncSerialTX (alone and inside AsyncSerial): frames on the line against the accepted characters."""
from amaranth import Record
from mc.runner import Cfg

ASSUMPTIONS = ["the run-time divisor is changed only while ready is asserted (between frames)",
               "the frame starts within divisor+2 cycles of acceptance; inside the frame every bit but the stop bit lasts exactly the divisor; "
               "the stop bit lasts at least the divisor"]

CPP = r"""
enum { NONE, MARK, SPACE, EVEN, ODD };
#define NBITS (1+BITS+(PAR!=NONE)+1)
static const u32 DV[]={DIVS};
#if BITS>16
typedef u64 WT;
#define PARITY(x) __builtin_parityll(x)
#else
typedef u16 WT;
#define PARITY(x) __builtin_parity(x)
#endif
#ifdef ALPHA
static const WT AL[]={ALPHA};
#define PICK AL[ch(sizeof AL/sizeof*AL)]
#else
#define PICK ch(1<<BITS)
#endif
struct Mon { u16 p, lat; u8 pend, act; WT cur; u8 dv; };
static int init(D& d, Mon& m, Ch& ch){ m.dv=0; return OK_; }
static int ebit(WT c, int b){
  if(b==0) return 0; if(b<=BITS) return (c>>(b-1))&1; if(b==NBITS-1) return 1;
  return PAR==MARK?1: PAR==SPACE?0: PAR==EVEN?PARITY(c): !PARITY(c);
}
static int step(D& d, Mon& m, Ch& ch){
  int div=DV[m.dv];
#ifdef RTDIV
  d.divisor=div;
#endif
  d.comb();
  CHECK(!(d.rdy && (m.pend || (m.act && m.p<(NBITS-1)*div))), "ready although a character is still being sent");
  CHECK(m.pend||m.act||d.rdy, "not ready although nothing is being sent");
#ifdef RTDIV
  if(d.rdy && !m.act && !m.pend){ m.dv=ch(sizeof DV/sizeof*DV); div=DV[m.dv]; d.divisor=div; d.comb(); }
#endif
  int acc=0; u64 c=0;
  d.ack=ch(2); 
  if(d.ack){ c=d.rdy ? PICK : ch(2)*((1ull<<BITS)-1); d.data=c; if(d.rdy) acc=1; }
  d.comb();
  if(!m.act){
    if(d.o==0){ CHECK(m.pend, "start bit without an accepted character"); m.act=1; m.p=0; m.pend=0; m.lat=0; COVER("frame"); }
    else if(m.pend) CHECK(++m.lat<=div+2, "accepted character is not sent");
  }
  if(m.act){ int b=m.p/div; CHECK(d.o==ebit(m.cur,b), "bit %d of the frame for %llx is %d (cycle %d)", b, (unsigned long long)m.cur, (int)d.o, m.p); }
  if(m.act && ++m.p==NBITS*div){ m.act=0; m.p=0; if(!m.pend) m.cur=0; }
  if(acc){
    COVERIF(m.act,"accepted during the stop bit");
    // the running frame may still be in its stop bit: keep it as a constant one
    if(m.act){ m.pend=1; m.cur=c; m.lat=0; } else { m.pend=1; m.cur=c; m.lat=0; }
  }
  tick(d);
  return OK_;
}
"""
PARS = ["none", "mark", "space", "even", "odd"]


def configs(tier):
    from amlib.io.serial import AsyncSerialTX, AsyncSerial

    def mk(div, bits, par, rt, whole, pins=False):
        def build():
            kw = {"divisor_bits": rt} if rt else {}
            if pins:
                kw["pins"] = pads = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])
            if whole:
                a = AsyncSerial(divisor=div, data_bits=bits, parity=par, **kw)
                u, dv = a.tx, a.divisor
            else:
                a = u = AsyncSerialTX(divisor=div, data_bits=bits, parity=par, **kw)
                dv = u.divisor
            ins = {"data": u.data, "ack": u.ack}
            if rt:
                ins["divisor"] = dv
            return a, ins, {"rdy": u.rdy, "o": pads.tx.o if pins else u.o}
        return build
    out = []

    def add(div, bits, par, rt=0, divs=None, whole=False, pins=False, alpha=None):
        c = {"BITS": bits, "PAR": PARS.index(par), "DIVS": ",".join(map(str, divs or [div]))}
        if rt:
            c["RTDIV"] = 1
        if alpha:
            c["ALPHA"] = alpha
        out.append(Cfg(f"d{div}_b{bits}_{par}" + (f"_rt{rt}" if rt else "") + ("_whole" if whole else "") + ("_pins" if pins else ""), mk(div, bits, par, rt, whole, pins), CPP, c,
                       covers=["frame"], ntraces=4, max_states=20_000_000, cost=2))
    for par in PARS:
        add(3, 8, par)
        add(1, 5, par)
    add(8, 7, "even")
    add(2, 8, "odd")
    add(4, 5, "odd", rt=4, divs=[1, 2, 3, 5, 15])
    add(16, 8, "none", rt=6, divs=[16, 63])
    add(5, 6, "even", rt=3, divs=[5, 7], whole=True)
    add(5, 8, "none", whole=True)
    add(1, 9, "even")
    add(5, 9, "odd", rt=5, divs=[5, 21], whole=True)
    add(3, 6, "none", pins=True)
    add(33, 8, "odd", alpha="0xa5,0x3c,0,0xff")
    add(104, 8, "none", alpha="0xa5,0x3c,0,0xff")
    add(868, 8, "even", alpha="0xa4,0xff")
    add(4, 16, "none", alpha="0xa55a,0x8000,0,0xffff")
    add(2, 40, "even", alpha="0xa55a0ff123ull,0x8000000000ull,0,0x5555500001ull")
    add(3, 31, "none", alpha="0x5a0ff123,0x40000000,0")
    add(3, 12, "odd", alpha="0xa5a,0x800,0,0xfff")
    add(5, 6, "odd", whole=True, pins=True)
    add(6, 7, "none")
    add(7, 4, "even")
    add(10, 10, "odd", alpha="0x2a5,0x200,0,0x3ff")
    add(24, 8, "none", alpha="0xa5,0x3c,0,0xff", rt=9, divs=[24, 300, 511])
    add(64, 5, "even", alpha="0x15,0x0a")
    add(1, 1, "even")
    add(3, 2, "odd")
    add(2, 3, "none")
    add(1, 1, "none")
    if tier == "thorough":
        for par in PARS:
            add(16, 8, par)
            add(4, 9, par)
        add(105, 8, "none")
        add(7, 8, "even", rt=8, divs=[1, 2, 7, 128, 255])
    return out

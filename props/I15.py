"""SerialLEDArray (MAX7219): the serial lines are decoded as the display chips see them."""
from mc.runner import Cfg, Broken

ASSUMPTIONS = ["divisor >= 10 (limit of the SPI controller in phase 0)", "the default initialization is the data sheet's: test off, no decode, full intensity, scan 8 digits, normal operation",
               "no transfer earlier than init_delay - 2 cycles after reset", "init_delay >= 1, at least one initialization entry",
               "data valid while a word is being prepared (from the end of the previous word to 3 cycles after chip select) may or may not be in that word",
               "module 0 is the last one in the chain (lowest 16 bits)", "at most UPD digit updates per run, each at any cycle"]

CPP = r"""
static const u16 INITSEQ[]={ISEQ};
#define NI ((int)(sizeof INITSEQ/2))
struct Mon { u8 pcs, psck, psdo, sel; u16 nb; u16 w[NMOD]; u32 gap; u16 len; u8 since; u8 hold; u8 ini, row; u8 cur, cand, upd; };
static u8 dig(int pat, int n){ // digit n of pattern
  u32 v=(u32)(n*37+11) ^ (pat*0x5bu) ^ (pat? (n<<4) : 0); return pat==3 ? 0 : (u8)v; }
static int init(D& d, Mon& m, Ch& ch){ m.cur=3; m.cand=8; m.pcs=1; m.gap=0; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int v=0;
  if(m.upd<UPD && (m.ini==NI || EARLY) && ch(2)){ v=1; m.upd++; }
  int np = v ? (m.upd==1 ? (ch(2)?1:0) : 2-ch(2)) : 4;
  #define SETD(i) d.d##i = (u8)(v? dig(np,i) : ~dig(m.cur,i));
  SETDIGITS
  d.valid=v; d.sdi=m.psdo;
  d.comb();
  int cs = !d.cs, sck=d.sck;
  bool rise=!m.psck&&sck;
  if(cs && m.pcs==1){   // chip select becomes active
    CHECK(m.ini || (int)m.gap>=DELAY-2, "transfer started %d cycles after reset, the display needs %d", m.gap, DELAY);
    m.sel=1; m.gap=0; m.nb=0; for(int i=0;i<NMOD;i++) m.w[i]=0; m.len=0; m.pcs=0; CHECK(!sck,"clock active at chip select");
  } else if(!cs && m.pcs==0){
    CHECK(m.nb==16*NMOD,"chip select released after %d clocks instead of %d",m.nb,16*NMOD);
    if(m.ini<NI){
      for(int i=0;i<NMOD;i++) CHECK(m.w[i]==INITSEQ[m.ini],"initialization word %d for module %d is %04x instead of %04x",m.ini,i,m.w[i],INITSEQ[m.ini]);
      m.ini++; COVERIF(m.ini==NI,"initialized");
    } else {
      bool good=false, isnew=false;
      for(int i=0;i<NMOD;i++) CHECK((m.w[i]>>8)==m.row+1,"module %d: register %x written instead of digit register %x",i,m.w[i]>>8,m.row+1);
      for(int p=0;p<4;p++) if(m.cand>>p&1){ bool ok=true; for(int i=0;i<NMOD;i++) if((m.w[i]&255)!=dig(p,i*8+m.row)) ok=false; if(ok){ good=true; if(p==m.cur) isnew=true; } }
      CHECK(good,"row %d carries %02x for module 0, current data is %02x",m.row,m.w[0]&255,dig(m.cur,m.row));
      COVERIF(m.cur!=3 && isnew,"row with user data"); COVERIF(m.row==7,"last row"); COVERIF(m.upd==2 && isnew,"second update");
      m.row=(m.row+1)&7;
    }
    m.sel=0; m.pcs=1; m.gap=0; m.cand=1<<m.cur; for(int i=0;i<NMOD;i++) m.w[i]=0; m.nb=0;
  }
  if(m.sel){ CHECK(++m.len<=(16*NMOD+3)*DIV,"word does not end"); }
  else { CHECK(!sck,"clock without chip select"); CHECK(++m.gap<= (m.ini? 3*DIV+12 : DELAY+3*DIV+16),"no further word is sent"); }
  if(rise){
    CHECK(m.nb<16*NMOD,"too many clocks"); CHECK(d.sdo==m.psdo,"data changes with the clock edge");
    CHECK(m.nb==0 || m.since>=DIV-2,"clock too fast");
    int k=NMOD-1-m.nb/16; m.w[k]=m.w[k]<<1|d.sdo; m.nb++; m.since=0; m.hold=2;
  } else if(m.hold){ m.hold--; CHECK(d.sdo==m.psdo,"data changes right after the clock edge"); }
  if(m.since<2*DIV) m.since++;
  m.psck=sck; m.psdo=d.sdo;
  if(v){ m.cur=np; if(!m.sel || m.len<=3) m.cand|=1<<np; }
  tick(d);
  return OK_;
}
"""

def configs(tier):
    from amaranth import Elaboratable, Module, Signal, Record
    from amlib.io import max7219
    from amlib.io.max7219 import SerialLEDArray
    # MAX7219 data sheet: display test off, no decode, full intensity, scan all 8 digits, leave shutdown
    datasheet = [[0x0f, 0], [0x09, 0], [0x0a, 0xf], [0x0b, 7], [0x0c, 1]]

    class Res(Elaboratable):
        def __init__(self, dut):
            self.dut = dut
            self.r = Record([("copi", 1), ("cipo", 1), ("clk", 1), ("cs", 1)])
            self.cs_pin = Signal()

        def elaborate(self, platform):
            m = Module()
            m.submodules.dut = self.dut
            m.d.comb += self.dut.connect_to_resource(self.r)
            m.d.comb += self.cs_pin.eq(~self.r.cs)      # a PinsN chip select
            return m

    def mk(div, delay, seq, nmod, res):
        def build():
            kw = {"init_sequence": seq} if seq else {}
            t = SerialLEDArray(divisor=div, init_delay=delay, no_modules=nmod, **kw)
            if len(t.digits_in) != 8 * nmod:
                raise Broken(f"{len(t.digits_in)} digit inputs for {nmod} module(s)")
            ins = {f"d{i}": t.digits_in[i] for i in range(8 * nmod)}
            ins.update(valid=t.valid_in, sdi=t.spi_bus_out.sdi)
            outs = {"cs": t.spi_bus_out.cs, "sck": t.spi_bus_out.sck, "sdo": t.spi_bus_out.sdo}
            if res:
                r = Res(t)
                outs = {"cs": r.cs_pin, "sck": r.r.clk, "sdo": r.r.copi}
                return r, ins, outs
            return t, ins, outs
        return build
    out = []

    def add(name, div=10, delay=5, seq=None, nmod=1, upd=1, early=False, res=False, cov=(), base=True, **kw):
        c = {"ISEQ": ",".join(str(int(a) << 8 | b) for a, b in (seq or datasheet)), "NMOD": nmod, "DIV": div, "DELAY": int(delay), "UPD": upd, "EARLY": int(early),
             "SETDIGITS": " ".join(f"SETD({i})" for i in range(8 * nmod))}
        out.append(Cfg(name, mk(div, delay, seq, nmod, res), CPP, c, covers=(["initialized", "row with user data", "last row"] if base else []) + list(cov), ntraces=4, max_states=20_000_000, cost=2, **kw))
    add("long_delay", 10, 1_100_000, upd=0, early=False, cov=(), base=False)
    long = [[i + 1 if i < 8 else 9 + i % 7, (i * 0x35 + 7) & 255] for i in range(12)]
    add("n1_div10", upd=2, early=True, cov=["second update"])
    add("n2_div12", 12, 90, nmod=2)
    add("n3_div10_resource", 10, 1, nmod=3, res=True)
    add("init1", 10, 2, seq=[[0x0c, 1]])
    add("init2_div14", 14, 2, seq=[[0x0c, 1], [0x0b, 0xff]])
    add("init7", 10, 2, seq=long[:7])
    add("init8", 10, 2, seq=long[:8])
    add("init12", 10, 3, seq=long)
    add("n4_div16", 16, 100, nmod=4)
    add("n8_div10", 10, 1, nmod=8)
    add("n5_div26", 26, 300, nmod=5, res=True)
    add("init20_n2", 10, 3, seq=long + long[2:10], nmod=2)
    if tier == "thorough":
        add("t_n1_two_updates", upd=2, early=True, cov=["second update"])
        add("t_n2_two_updates", 10, 7, nmod=2, upd=2, cov=["second update"])
        add("t_n16_div10", 10, 1, nmod=16)
        add("t_n3_div64", 64, 1000, nmod=3)
    return out

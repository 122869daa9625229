"""SPIControllerInterface: the serial lines are decoded by an independent monitor that also plays the device."""
from mc.runner import Cfg

ASSUMPTIONS = ["divisor >= 10 (phase 0) or 12 (phase 1) with, >= 6 without input synchronizers (the data path through the device core needs up to 5 cycles per half period)",
               "start_transfer is strobed only between transfers; word_out is stable from the request until 6 cycles into the selection",
               "the device drives its first bit with chip select (phase 0) or the leading edge (phase 1) and further bits on output edges, within DLY cycles; "
               "one cycle after each sampling edge its data may already be inverted",
               "in phase 1 the first active clock half may be shorter by an eighth of the divisor plus one cycle; sampling edges are always exactly one divisor apart"]

CPP = r"""
static const u32 AB[]={ALPHA}; static const u32 RB[]={RALPHA};
#define MASK ((u32)((1ull<<WS)-1))
#define HALF (DIV/2)
struct Mon {
  u8 pcs, psck, psdo; u8 sel; u8 lead, trail; u16 ph, since;   // cycles since last edge / last sampling edge
  u8 want, complete; u16 wait; u32 w, r, sh; u8 obit, dly, cur, hold; u16 age; u8 anyw;
};
static int bitof(u32 w,int b){ return MSB ? (w>>(WS-1-b))&1 : (w>>b)&1; }
static int init(D& d, Mon& m, Ch& ch){ m.complete=1; return OK_; }
static u32 pick(Ch& ch, const u32* a, int n){
#ifdef ALLW
  return ch(MASK+1);
#else
  return a[ch(n)];
#endif
}
static int step(D& d, Mon& m, Ch& ch){
  // user
  if(!m.want && !m.sel && m.complete && ch(2)){ m.want=1; m.wait=0; m.w=pick(ch,AB,sizeof AB/4); 
#ifdef ALLW
    m.r = ch(2) ? ~m.w&MASK : (m.w<<1|m.w>>(WS-1))&MASK;
#else
    m.r=RB[ch(sizeof RB/4)];
#endif
    d.start_transfer=1; m.complete=0; }
  d.word_out = (m.want || (m.sel && m.age<6)) ? m.w : ~m.w&MASK;
  d.sdi=m.cur;
  d.comb();
  int cs = CSH ? !d.cs : d.cs, sck = CPOL ? !d.sck : d.sck;      // active levels
  bool rise=!m.psck&&sck, fall=m.psck&&!sck;
  if(!cs){ CHECK(!sck, "clock is active while no device is selected"); }
  if(cs && !m.pcs){
    CHECK(m.want, "chip select without a request"); m.want=0; m.sel=1; m.age=0; m.lead=m.trail=0; m.since=0; m.ph=0; m.sh=0; m.obit=0;
    CHECK(CPHA || !sck, "chip select becomes active together with the clock");
    COVER("selected");
    if(!CPHA){ m.dly=DLY+1; }
  }
  if(!cs && m.pcs){
    CHECK(m.lead==WS && m.trail==WS, "transfer ended after %d leading and %d trailing clock edges", m.lead, m.trail);
    CHECK(m.complete || d.word_complete, "transfer ended without a completion strobe"); m.sel=0; m.age=0;
  }
  if(cs){ m.age = m.age<60000?m.age+1:m.age; CHECK(m.age<(WS+3)*DIV, "transfer does not end"); }
  if(m.want){ CHECK(++m.wait<=3*DIV+4, "requested transfer does not start"); }
  bool sample=false;
  if(rise){
    CHECK(cs, "clock edge while not selected"); m.lead++; CHECK(m.lead<=WS, "more than %d clock pulses", WS);
    if(m.lead>1 || !CPHA) CHECK(m.lead==1 || m.ph==HALF, "inactive clock phase lasts %d cycles, half period is %d", m.ph, HALF);
    m.ph=0; if(CPHA) m.dly=DLY+1; else sample=true;
  }
  if(fall){
    CHECK(cs, "clock edge while not selected"); m.trail++;
    CHECK(m.ph==HALF || (CPHA && m.trail==1 && m.ph>=HALF-DIV/8-1 && m.ph<=HALF), "active clock phase lasts %d cycles, half period is %d", m.ph, HALF);
    m.ph=0; if(!CPHA) m.dly=DLY+1; else sample=true;
  }
  if(m.ph<2*DIV) m.ph++;
  if(sample){
    int b = (CPHA?m.trail:m.lead)-1;
    CHECK(d.sdo==bitof(m.w,b) && m.psdo==d.sdo, "bit %d on sdo is %d (before: %d) at the sampling edge, word_out was %x", b, (int)d.sdo, m.psdo, m.w);
    CHECK(b==0 || m.since==DIV, "sampling edges are %d cycles apart, divisor is %d", m.since, DIV);
    m.since=0; m.hold=2;
    m.sh = MSB ? ((m.sh<<1)|d.sdo)&MASK : m.sh|(u32)d.sdo<<b;
  } else if(m.hold){ CHECK(d.sdo==m.psdo, "sdo changes right after the sampling edge"); }
  if(m.hold) m.hold--;
  m.since++; if(m.since>2*DIV) m.since=2*DIV;
  if(d.word_complete){
    CHECK(m.sel && !m.complete, "completion strobe without a running transfer");
    CHECK(m.lead==WS && m.trail==WS, "completion strobe after %d/%d clock edges", m.lead, m.trail);
    CHECK(d.word_in==m.r, "word_in is %x, device sent %x", (int)d.word_in, m.r);
    m.complete=1; m.anyw=1; COVER("complete");
    if(!cs){ m.sel=0; }
  }
  // device: new bit after an output edge, inverted after the sampling edge until then
  if(m.hold==1 && HOLDINV) m.cur=!m.cur;
  if(m.dly && --m.dly==0){ m.cur = m.obit<WS ? bitof(m.r,m.obit) : 0; m.obit++; }
  m.pcs=cs; m.psck=sck; m.psdo=d.sdo;
  if(!m.want && !m.sel){ m.sh=0; m.w=m.r=0; m.lead=m.trail=0; m.ph=m.since=2*DIV; m.obit=0; m.wait=0; }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Module, Record
    from amlib.io.spi import SPIControllerInterface

    def mk(res, **kw):
        def build():
            t = SPIControllerInterface(**kw)
            if res:
                m = Module()
                m.submodules.dut = t
                r = Record([("clk", [("o", 1)]), ("copi", [("o", 1)]), ("cipo", [("i", 1)]), ("cs", [("o", 1)])])
                m.d.comb += t.connect_to_resource(r)
                ins, outs, top = {"sdi": r.cipo.i}, {"sck": r.clk.o, "sdo": r.copi.o, "cs": r.cs.o}, m
            else:
                ins, outs, top = {"sdi": t.spi.sdi}, {"sck": t.spi.sck, "sdo": t.spi.sdo, "cs": t.spi.cs}, t
            ins.update(word_out=t.word_out, start_transfer=t.start_transfer)
            outs.update(word_in=t.word_in, word_complete=t.word_complete)
            return top, ins, outs
        return build
    out = []

    def add(name, ws, div, cpol, cpha, msb=True, csh=False, skip=False, res=False, **kw):
        c = dict({"ALPHA": "0xA5,0x3C", "RALPHA": "0x5A,0xC3", "DLY": 0, "HOLDINV": 1}, WS=ws, DIV=div, CPOL=cpol, CPHA=cpha, MSB=int(msb),
                 CSH=int(csh and not res), **kw)
        out.append(Cfg(name, mk(res, word_size=ws, divisor=div, clock_polarity=cpol, clock_phase=cpha, msb_first=msb, cs_idles_high=csh, skip_input_cdc=skip),
                       CPP, c, covers=["selected", "complete"], ntraces=4, max_states=30_000_000, cost=2))
    for cpol in (0, 1):
        for cpha in (0, 1):
            add(f"m{cpol}{cpha}_ws8_d16", 8, 16, cpol, cpha)
            add(f"m{cpol}{cpha}_ws4", 4, 10 + 2 * cpha, cpol, cpha, msb=bool(cpol), csh=not cpha, ALLW=1)
            add(f"m{cpol}{cpha}_ws3_d8_skip", 3, 8, cpol, cpha, msb=not cpha, csh=bool(cpol), skip=True, ALLW=1)
            add(f"m{cpol}{cpha}_ws5_d24", 5, 24, cpol, cpha, msb=not cpol, csh=bool(cpol), ALPHA="0x15,0x0b", RALPHA="0x0a,0x1c", DLY=2)
            add(f"m{cpol}{cpha}_res", 6, 12, cpol, cpha, csh=bool(cpha), res=True, ALPHA="0x35,0x0a", RALPHA="0x2c,0x13")
    for k, (ws, div) in enumerate(((16, 20), (32, 12), (24, 50), (1, 100))):
        for cpha in (0, 1):
            f = (1 << ws) - 1
            add(f"w{ws}_d{div}_p{cpha}", ws, div, (k + cpha) & 1, cpha, msb=bool(k & 1), csh=bool(k & 2), ALPHA=f"{0xa5c30f96 & f}u,{f & ~1}u,0",
                RALPHA=f"{0x3c96a5f1 & f}u,{f >> 1}u,{f}u", DLY=1)
    for cpol in (0, 1):
        for cpha in (0, 1):
            add(f"m{cpol}{cpha}_ws{1 + (cpol ^ cpha)}", 1 + (cpol ^ cpha), 12, cpol, cpha, ALLW=1)
            add(f"m{cpol}{cpha}_ws3_d6_skip", 3, 6, cpol, cpha, skip=True, ALLW=1)
    if tier == "thorough":
        for cpol in (0, 1):
            for cpha in (0, 1):
                for msb in (True, False):
                    add(f"t{cpol}{cpha}{int(msb)}_ws16_d12", 16, 12, cpol, cpha, msb=msb, ALPHA="0xA5F0,0x3C01,0x8000", RALPHA="0x5A1F,0xC380")
                    add(f"t{cpol}{cpha}{int(msb)}_ws6", 6, 10 + 2 * cpha, cpol, cpha, msb=msb, ALLW=1)
                    add(f"t{cpol}{cpha}{int(msb)}_ws7_d6_skip", 7, 6, cpol, cpha, msb=msb, skip=True, ALPHA="0x25,0x5a", RALPHA="0x1e,0x61")
                    add(f"t{cpol}{cpha}{int(msb)}_ws3_d100", 3, 100, cpol, cpha, msb=msb, ALLW=1, DLY=20)
    return out

"""SPIDeviceInterface: a free controller (all modes, aborts anywhere, foreign traffic) against a word-level reference."""
from mc.runner import Cfg

ASSUMPTIONS = ["clock phases and chip-select set-up last at least HALF system cycles (>= 5 with, >= 3 without input synchronizers)",
               "controller data is valid from two cycles before to one cycle after the sampling edge and inverted otherwise",
               "the user changes word_out only after the word has been latched (first word: 6 cycles after selection; others: after word_complete)",
               "word sizes >= 2; the first selection happens at least 6 cycles after reset"]

CPP = r"""
#if WS>32
typedef u64 WT;
#else
typedef u32 WT;
#endif
static const WT AB[]={ALPHA}; static const WT UB[]={UALPHA};
#define MASK ((WT)(WS==64 ? ~0ull : (1ull<<(WS&63))-1))
enum { DESEL, SETUP, LEAD, TRAIL };        // current segment: deselected, selected before first edge, after leading / trailing edge
struct Mon {
  u8 seg, cnt, age; u8 sel, clk;           // age: cycles since the segment began
  u8 bit; WT w;                           // controller word and bits sampled so far
  WT rx;                                  // bits the controller has read from the device
  WT tx, nexttx; u8 known;                // word the device has to send now; user's current word
  u8 pend, page; WT pw; u8 acc;           // completed word that has to be reported
  WT last; u8 wo; u8 chg; u8 words;
  u8 fclk, held, hv;
};
static int bitof(WT w,int b){ return MSB ? (w>>(WS-1-b))&1 : (w>>b)&1; }
static int init(D& d, Mon& m, Ch& ch){ m.cnt=8; return OK_; }
static WT pickw(Ch& ch){
#ifdef ALLW
  return ch(MASK+1);
#else
  return AB[ch(sizeof AB/sizeof*AB)];
#endif
}
static int step(D& d, Mon& m, Ch& ch){
  bool sampled=false, completed=false;
  if(m.cnt) { m.cnt--; if(m.age<200) m.age++; }
  else {
    m.age=0; int k;
    switch(m.seg){
      case DESEL:
        if(FOREIGN && m.fclk==0 && ch(2)){ m.fclk=1; m.clk=!m.clk; m.cnt=2; }
        else if(m.clk){ m.clk=0; m.cnt=HALF; m.fclk=1; }
        else { m.sel=1; m.seg=SETUP; m.cnt=HALF-1+(JIT?ch(2):0); m.bit=0; m.w=pickw(ch); m.rx=0; m.tx=UB[m.wo]; m.fclk=0; m.chg=1; m.words=0; COVER("selected"); }
        break;
      case SETUP: m.clk=1; m.seg=LEAD; m.cnt=HALF-1+(JIT?ch(2):0); if(!CPHA) sampled=true; break;
      case LEAD:
        if(ABORT && ch(2)){ m.sel=0; m.seg=DESEL; if(ch(2)) m.clk=0; m.cnt=GAP; m.fclk=0; COVERIF(m.bit,"abort"); break; }
        m.clk=0; m.seg=TRAIL; m.cnt=HALF-1+(JIT?ch(2):0); if(CPHA) sampled=true; break;
      case TRAIL:
        k = m.bit==0 ? (m.words>=2 ? 1 : ch(2)) : ABORT ? ch(2) : 0;
        if(k==1){ m.sel=0; m.seg=DESEL; m.cnt=GAP; m.fclk=0; COVERIF(m.bit,"abort"); if(m.bit==0) COVER("regular end"); break; }
        if(m.bit==0 && m.words && CPHA) { m.w=pickw(ch); m.rx=0; }
        m.clk=1; m.seg=LEAD; m.cnt=HALF-1+(JIT?ch(2):0); if(!CPHA) sampled=true; break;
    }
  }
  // controller data line
  int v = bitof(m.w, sampled? m.bit : m.bit);
  // position relative to the sampling edge: valid just before (cnt<=2 of the preceding segment), at it and one cycle after
  bool pre = (CPHA ? m.seg==LEAD : (m.seg==SETUP||m.seg==TRAIL)) && m.cnt<=1;
  bool post = m.age==1 && (CPHA ? m.seg==TRAIL : m.seg==LEAD);
  int di;
  if(sampled) di=v;
  else if(post) di = m.bit ? bitof(m.w,m.bit-1) : m.fclk==2;    // value of the bit just sampled
  else if(pre) di=v;
  else di=!v;
  d.cs = CSH ? !m.sel : m.sel; d.sck = CPOL ? !m.clk : m.clk; d.sdi = di;
  d.word_out=UB[m.wo];
  d.comb();
  if(pre && m.cnt==0 && m.sel) { int e=bitof(m.tx, m.bit); CHECK(d.sdo==e, "bit %d of the word on sdo is %d before the sampling edge, word_out was %llx", m.bit, (int)d.sdo, (unsigned long long)m.tx); }
  { bool hold = m.sel && m.held && (CPHA ? m.seg==TRAIL : m.seg==LEAD);   // no output edge since the bit was sampled
    if(!hold) m.held=m.hv=0;
    else CHECK(d.sdo==m.hv, "sdo changed from %d without an output edge", m.hv); }
  if(sampled){
    int e=bitof(m.tx,m.bit);
    CHECK(d.sdo==e, "bit %d of the word on sdo is %d, word_out was %llx", m.bit, (int)d.sdo, (unsigned long long)m.tx);
    m.held=1; m.hv=d.sdo;
    m.bit++;
    if(m.bit==WS){
      CHECK(!m.pend, "previous word %llx never reported", (unsigned long long)m.pw);
      m.pend=1; m.page=0; m.pw=m.w; m.acc=0; m.bit=0; m.words++; m.fclk=v?2:3;
      m.tx=UB[m.wo]; m.chg=0; completed=true; COVERIF(m.words>=2,"second word");
      if(!CPHA){ m.w=pickw(ch); }
    }
  }
  if(d.word_accepted){ CHECK(m.pend && !m.acc, "word accepted without a complete word"); m.acc=1; }
  if(d.word_complete){
    CHECK(m.pend, "word %x reported although no word is complete", (int)d.word_in);
    CHECK(d.word_in==m.pw, "word %x reported, controller sent %llx", (int)d.word_in, (unsigned long long)m.pw);
    CHECK(m.acc, "word complete before it was accepted");
    m.pend=0; m.page=0; m.last=m.pw; m.pw=0; m.chg=1; m.acc=0; COVER("word");
  } else if(m.pend){ CHECK(++m.page<=9, "word %llx is not reported", (unsigned long long)m.pw); }
  else CHECK(d.word_in==m.last, "word_in changed to %x", (int)d.word_in);
  // user
  if(m.chg==1 && (m.seg!=SETUP || (m.age>=6)) && !completed && !m.pend){ m.chg=0; if(m.sel) m.wo=ch(sizeof UB/sizeof*UB); }
  if(!m.sel && m.seg==DESEL && m.age==0 && m.cnt==GAP){ m.wo=ch(sizeof UB/sizeof*UB); }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Module, Record
    from amlib.io.spi import SPIDeviceInterface

    def mk(res, **kw):
        def build():
            t = SPIDeviceInterface(**kw)
            if res:
                m = Module()
                m.submodules.dut = t
                r = Record([("clk", [("i", 1)]), ("copi", [("i", 1)]), ("cipo", [("o", 1)]), ("cs", [("i", 1)])])
                m.d.comb += t.connect_to_resource(r)
                ins = {"sck": r.clk.i, "sdi": r.copi.i, "cs": r.cs.i}
                outs = {"sdo": r.cipo.o}
                top = m
            else:
                ins = {"sck": t.spi.sck, "sdi": t.spi.sdi, "cs": t.spi.cs}
                outs = {"sdo": t.spi.sdo}
                top = t
            ins["word_out"] = t.word_out
            outs.update({n: getattr(t, n) for n in ("word_in", "word_accepted", "word_complete")})
            return top, ins, outs
        return build
    out = []

    def add(name, ws, cpol, cpha, msb=True, csh=False, skip=False, cov=(), res=False, **kw):
        c = dict({"ALPHA": "0x5", "UALPHA": "0x6,0x9", "JIT": 0, "ABORT": 0, "FOREIGN": 0, "HALF": 3 if skip else 5, "GAP": 9},
                 WS=ws, CPOL=cpol, CPHA=cpha, MSB=int(msb), CSH=int(csh and not res), **kw)
        out.append(Cfg(name, mk(res, word_size=ws, clock_polarity=cpol, clock_phase=cpha, msb_first=msb, cs_idles_high=csh, skip_input_cdc=skip),
                       CPP, c, covers=["selected", "word", "second word", "regular end"] + list(cov), ntraces=4, max_states=30_000_000, cost=2))
    for cpol in (0, 1):
        for cpha in (0, 1):
            add(f"m{cpol}{cpha}_ws8", 8, cpol, cpha, ALPHA="0xA5,0x3C,0x01", UALPHA="0x5A,0x80,0x0f")
            add(f"m{cpol}{cpha}_ws5_abort", 5, cpol, cpha, msb=bool(cpol ^ cpha), csh=bool(cpha), cov=["abort"], ABORT=1, FOREIGN=1, ALPHA="0x16,0x09", UALPHA="0x0b,0x14")
            add(f"m{cpol}{cpha}_ws3_skip", 3, cpol, cpha, msb=not cpol, csh=bool(cpol), skip=True, cov=["abort"], ABORT=1, ALLW=1, UALPHA="0,1,2,3,4,5,6,7")
    add("m00_ws4_jit", 4, 0, 0, cov=["abort"], JIT=1, ABORT=1, ALPHA="0xb,0x4", UALPHA="0xd,0x2")
    add("m01_ws6_jit_lsb", 6, 0, 1, msb=False, JIT=1, ALPHA="0x2b,0x14", UALPHA="0x1d")
    add("m01_ws12_csh", 12, 0, 1, csh=True, ALPHA="0xabc,0x543", UALPHA="0x35a,0xc81")
    add("m11_ws16", 16, 1, 1, ALPHA="0x8001,0x6c39", UALPHA="0x93c6,0x4001")
    add("m00_ws24_lsb", 24, 0, 0, msb=False, ALPHA="0x8001ff,0x6c39a5", UALPHA="0x93c65a,0x400001")
    add("m01_ws32", 32, 0, 1, ALPHA="0x80017ffeu,0x6c39a5c3", UALPHA="0x93c65a0fu,0x40000001")
    add("m00_ws40", 40, 0, 0, ALPHA="0x80017ffe5aull,0x6c39a5c33cull", UALPHA="0x93c65a0fe1ull,0x400000017eull")
    add("m11_ws64_lsb", 64, 1, 1, msb=False, ALPHA="0x80017ffe5a31c6d5ull", UALPHA="0x93c65a0fe1a50ff1ull,0x400000017e5ac396ull")
    add("m01_ws33_csh", 33, 0, 1, csh=True, skip=True, ALPHA="0x180017ffeull,0x06c39a5c3ull", UALPHA="0x193c65a0full,0x040000001ull")
    add("m11_ws1", 1, 1, 1, ALLW=1, UALPHA="0,1")
    add("m10_ws2", 2, 1, 0, cov=["abort"], ABORT=1, ALLW=1, UALPHA="0,1,2,3")
    add("resource", 8, 0, 0, res=True, ALPHA="0xA5,0x3C", UALPHA="0x5A,0x80")
    add("resource_csh", 8, 1, 1, csh=True, res=True, ALPHA="0xA5,0x3C", UALPHA="0x5A,0x80")
    if tier == "thorough":
        for cpol in (0, 1):
            for cpha in (0, 1):
                for msb in (True, False):
                    add(f"t{cpol}{cpha}{int(msb)}_ws7", 7, cpol, cpha, msb=msb, csh=bool(cpol), cov=["abort"], ABORT=1, FOREIGN=1, JIT=1, ALPHA="0x5a,0x25", UALPHA="0x0b,0x54")
                    add(f"t{cpol}{cpha}{int(msb)}_ws8_all", 8, cpol, cpha, msb=msb, ALLW=1, UALPHA="0x5A,0xa5")
    return out

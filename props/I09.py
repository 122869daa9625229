"""SPICommandInterface: a free controller (any bits, deselection in any cycle, extra clocks) against the transaction format."""
from mc.runner import Cfg
from mc.spidev import CPP as SPI

ASSUMPTIONS = ["clock phases last at least 4 system cycles, chip select is set up SU cycles before the first clock and released for at least GAP cycles",
               "controller data is valid from one cycle before to one cycle after the falling (sampling) edge and inverted otherwise",
               "the user presents word_to_send from the cycle after command_ready until the end of the selection and its complement before",
               "a deselection in the two cycles after the final edge of a command or word may or may not still report it"]

CPP = SPI + r"""
#define CM ((u32)((1ull<<CS)-1))
#define WM ((u32)((1ull<<WS)-1))
static const u32 UB[]={UALPHA};
#ifdef CMDS
static const u32 CB[]={CMDS}, WB[]={WORDS};
#endif
struct Mon { Spi s; u64 tot; u32 cmd, w, resp, lastc, lastw; u8 pc, pw, ac, aw, rep, haveresp, opt, done, started; };
static int init(D& d, Mon& m, Ch& ch){
  m.s.cnt=6; m.started=1;
  if(HOTSTART && ch(2)){ m.s.sel=1; m.started=0; m.s.n=NB; m.s.seg=LOW; COVER("selected at reset"); }   // selection that has begun before reset
  return OK_;
}
static int step(D& d, Mon& m, Ch& ch){
  int forced=-1;
#ifdef CMDS
  // the controller sends command words out of a fixed list
  if(m.s.sel && m.s.n<NB) forced=(m.tot>>(NB-1-m.s.n))&1;
#endif
  int ev=spi_env(d, m.s, ch, forced); Spi& s=m.s;
#ifdef CMDS
  if(ev==EV_SELECT) m.tot=(u64)CB[ch(sizeof CB/4)]<<WS | WB[ch(sizeof WB/4)];
  if(!s.sel) m.tot=0;
#endif
  if(ev==EV_SELECT){ m.cmd=m.w=0; m.rep=0; m.haveresp=0; m.done=0; m.started=1; m.resp=0; }
  d.word_to_send = m.haveresp ? m.resp : (~m.resp)&WM;
  d.comb();
  // data towards the controller: stable for the two cycles before and at the sampling edge
  if(s.sel && m.started && m.haveresp && s.n>=CS && s.n<NB && s.seg==HIGH && s.cnt<=1)
    CHECK(d.spi__sdo==((m.resp>>(WS-1-(s.n-CS)))&1), "sdo is %d before bit %d of the response %x is sampled",(int)d.spi__sdo, s.n-CS, m.resp);
  if(ev==EV_FALL && m.started && s.n>CS && s.n<=NB){
    CHECK(m.haveresp,"no command reported before the data phase");
    CHECK(d.spi__sdo==((m.resp>>(WS-1-(s.n-1-CS)))&1), "sdo is %d when bit %d of the response %x is sampled",(int)d.spi__sdo, s.n-1-CS, m.resp);
  }
  if(ev==EV_FALL && m.started){
    if(s.n<=CS) m.cmd=(m.cmd<<1|s.bit)&CM; else if(s.n<=NB) m.w=(m.w<<1|s.bit)&WM;
    if(s.n==CS){ CHECK(!m.pc && !m.pw,"report overdue"); m.pc=1; m.ac=0; }
    if(s.n==NB){ CHECK(!m.pc && !m.pw,"report overdue"); m.pw=1; m.aw=0; }
  }
  if(ev==EV_DROP){
    if((m.pc||m.pw) && s.age<=2) m.opt=1;
    COVERIF(s.n && s.n<CS,"abort in command"); COVERIF(s.n>CS && s.n<NB,"abort in word");
    if(m.haveresp){ m.haveresp=0; m.resp=0; }
  }
  if(d.command_ready){
    CHECK(m.pc, "command %x reported after %d bits", (int)d.command, s.n);
    CHECK(d.command==m.cmd, "command %x reported, %x was sent",(int)d.command,m.cmd);
    m.pc=0; m.ac=0; m.lastc=m.cmd; m.opt=0; COVER("command");
    if(s.sel){ m.resp=UB[ch(sizeof UB/sizeof*UB)]; m.haveresp=2; }
  } else {
    CHECK(d.command==m.lastc,"command changed to %x without being reported",(int)d.command);
    if(m.pc && ++m.ac>5){ CHECK(m.opt,"command %x is not reported",m.cmd); m.pc=0; m.ac=0; m.opt=0; }
  }
  if(d.word_complete){
    CHECK(m.pw, "word %x reported after %d bits",(int)d.word_received, s.n);
    CHECK(d.word_received==m.w,"word %x reported, %x was sent",(int)d.word_received,m.w);
    m.pw=0; m.aw=0; m.lastw=m.w; m.opt=0; m.done=1; m.w=0; COVER("word");
  } else {
    CHECK(d.word_received==m.lastw,"word_received changed to %x without being reported",(int)d.word_received);
    if(m.pw && ++m.aw>5){ CHECK(m.opt,"word %x is not reported",m.w); m.pw=0; m.aw=0; m.opt=0; }
  }
  // status
  CHECK(!(d.idle && d.stalled),"idle and stalled at the same time");
  if(!s.sel && s.relage>=4 && s.seg==DESEL && m.started){ CHECK(d.idle && !d.stalled,"not idle although deselected"); }
  if(s.sel && s.relage>=3 && m.started){ CHECK(!d.idle,"idle although selected"); if(s.n<NB) CHECK(!d.stalled,"stalled although the transaction is not complete"); if(m.done) CHECK(d.stalled,"not stalled although the transaction is complete"); }
  if(!m.started && s.sel) CHECK(d.stalled, "not stalled although chip select was active at reset");
  if(m.haveresp==2) m.haveresp=1;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Module, Record
    from amlib.io.spi import SPICommandInterface

    def mk(cs, ws, res=False):
        def build():
            t = SPICommandInterface(command_size=cs, word_size=ws)
            top, spi = t, dict(sck=t.spi.sck, sdi=t.spi.sdi, cs=t.spi.cs, sdo=t.spi.sdo)
            if res:
                top = Module()
                top.submodules.dut = t
                r = Record([("clk", [("i", 1)]), ("copi", [("i", 1)]), ("cipo", [("o", 1)]), ("cs", [("i", 1)])])
                top.d.comb += t.connect_to_resource(r)
                spi = dict(sck=r.clk.i, sdi=r.copi.i, cs=r.cs.i, sdo=r.cipo.o)
            ins = {"spi__" + n: spi[n] for n in ("sck", "sdi", "cs")}
            ins["word_to_send"] = t.word_to_send
            outs = {"spi__sdo": spi["sdo"]}
            outs.update({n: getattr(t, n) for n in ("command", "command_ready", "word_received", "word_complete", "idle", "stalled")})
            return top, ins, outs
        return build
    out = []

    def add(name, cs, ws, cov=(), res=False, **kw):
        c = dict({"ABORT": 1, "FOREIGN": 0, "JIT": 0, "HALF": 4, "SU": 3, "GAP": 6, "EXTRA": 2, "HOTSTART": 0, "UALPHA": "0,%d" % ((1 << ws) - 1)},
                 CS=cs, WS=ws, NB=cs + ws, **kw)
        cv = ["selected", "command", "word", "extra clocks"] + (["abort in word", "abort in command"] if c["ABORT"] else []) + list(cov)
        if ws < 2 or cs < 2:
            cv = [x for x in cv if "abort" not in x]
        out.append(Cfg(name, mk(cs, ws, res), CPP, c, covers=cv, ntraces=4, max_states=40_000_000, cost=2))
    add("c3w3_abort", 3, 3, cov=["foreign clock"], FOREIGN=1, UALPHA="2,5,6")
    add("c2w4_jit", 2, 4, JIT=1, UALPHA="0x9")
    add("c4w2", 4, 2, cov=["selected at reset"], HOTSTART=1, UALPHA="0,1,2,3")
    add("c1w1", 1, 1, cov=["selected at reset"], HOTSTART=1, FOREIGN=1, JIT=1, UALPHA="0,1")
    add("c4w7", 4, 7, ABORT=0, EXTRA=1, UALPHA="0x35,0x4a")
    add("c7w4", 7, 4, ABORT=0, EXTRA=1, UALPHA="0x6,0x9")
    add("c8w8_wide", 8, 8, ABORT=0, EXTRA=1, UALPHA="0x35,0xca", CMDS="0xa5,0x01,0x80,0xff", WORDS="0x96,0x3c")
    add("c8w32_wide", 8, 32, ABORT=0, EXTRA=1, UALPHA="0x80000001u,0x6996a5c3", CMDS="0xa5,0x5b", WORDS="0x96a5c33c,0x7ffffffe")
    add("c32w24_wide", 32, 24, ABORT=0, EXTRA=1, UALPHA="0x800001u,0x96a5c3", CMDS="0xa5c30f96u,0x80000001u", WORDS="0xa5c33c,0x7ffffe")
    add("resource", 3, 4, res=True, ABORT=0, UALPHA="5,8")
    if tier == "thorough":
        add("t_c8w8_wide", 8, 8, ABORT=1, EXTRA=1, UALPHA="0x35,0xca", CMDS="0xa5,0x01,0x80,0xff", WORDS="0x96,0x3c")
        add("t_c4w5", 4, 5, cov=["foreign clock"], FOREIGN=1, UALPHA="0x0b,0x14,1")
        add("t_c3w4_jit", 3, 4, cov=["foreign clock", "selected at reset"], FOREIGN=1, HOTSTART=1, JIT=1, UALPHA="0xb,0x4")
        add("t_c8w5", 8, 5, ABORT=0, EXTRA=1, UALPHA="0x15,0x0a")
        add("t_c5w8", 5, 8, ABORT=0, HALF=5, SU=2, EXTRA=3, UALPHA="0xa5")
    return out

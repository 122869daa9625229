"""I2CInitiator on an open-drain bus with a nondeterministic target, against a bus-level monitor."""
from mc.runner import Cfg

ASSUMPTIONS = ["commands are strobed while busy is low, one at a time; stray strobes are injected during an operation but not at its very end "
               "(the cycle in which busy is about to fall is unspecified)",
               "the target changes data only while the clock is low (right after the falling edge, or late in the LATE configurations: only before it releases a stretched clock) and stretches only a low clock, for up to STRETCH cycles per bit",
               "single initiator; write/read bytes from the alphabet of the configuration (one configuration uses all bytes)"]

CPP = r"""
static const u8 WB[]={WALPHA}; static const u8 RB[]={RALPHA};
enum { NONE, START, STOP, WRITE, READ };
struct Mon {
  u8 scl, sda;            // line levels of the previous cycle
  u8 tsda, tscl;          // target's drivers (1 = released)
  u8 stretch;             // cycles the target still holds the clock low
  u8 op, bit, ev;         // running command, clock pulses seen, start/stop events seen
  u8 wdata, rdata, ack, rack;   // expectations of the running command
  u8 expack, expdata, known;    // persistent outputs: bit0 ack_o known, bit1 data_o known
  u8 run;                 // cycles in current clock phase (saturating)
  u8 low;                 // length of the last low phase
  u16 t;                  // cycles in this op not caused by stretching
  u8 nops, idlec, risen;
};
static int init(D& d, Mon& m, Ch& ch){ m.scl=m.sda=m.tsda=m.tscl=1; m.run=63; m.idlec=0; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  // resolve the bus (outputs of the pads are registered inside the design, so one pass is enough)
  d.comb();
  CHECK(!(d.scl_oe && d.scl_o) && !(d.sda_oe && d.sda_o), "a line is driven high (not open drain)");
  int iscl=!d.scl_oe, isda=!d.sda_oe;
  int scl=iscl&m.tscl, sda=isda&m.tsda;
  d.scl_i=scl; d.sda_i=sda;
  // commands
  bool accept=false; int cmd=NONE;
  if(m.op==NONE){
#ifdef ONESHOT
    if(!d.busy){ if(m.nops==0) cmd=START; else if(m.nops==1) cmd=WRITE+ch(2); else if(m.nops==2) cmd=STOP; else cmd=NONE; }
#else
    if(!d.busy) cmd = (PAUSE && m.idlec<1) ? ch(5) : 1+ch(4);
#endif
    if(cmd!=NONE) accept=true;
  } else if(STRAY && m.t>=2 && (m.op>=WRITE ? m.bit<8 : m.ev==0 && m.sda==sda)) cmd=ch(5);    // must be ignored
  d.start=cmd==START; d.stop=cmd==STOP; d.write=cmd==WRITE; d.read=cmd==READ;
  u8 wd=0, rd=0, ra=0;
  if(cmd==WRITE){ wd=WB[accept?ch(sizeof WB):0]; if(!accept) wd=~m.wdata; d.data_i=wd; }
  if(cmd==READ){ ra=ch(2); d.ack_i=ra; }
  d.comb();
  CHECK(m.known&1 ? (m.op==WRITE || d.ack_o==m.expack) : 1, "ack_o changed to %d outside a write", (int)d.ack_o);
  CHECK(m.known&2 ? (m.op==READ || d.data_o==m.expdata) : 1, "data_o is %02x, expected %02x", (int)d.data_o, m.expdata);
  // bus events
  bool fall=m.scl&&!scl, rise=!m.scl&&scl;
  bool ev_start = m.scl&&scl&&m.sda&&!sda, ev_stop = m.scl&&scl&&!m.sda&&sda;
  CHECK(!((fall||rise) && m.sda!=sda), "data and clock change in the same cycle");
  if(m.op==NONE) CHECK(m.scl==scl && m.sda==sda, "bus activity without a command");
  else CHECK(d.busy || !(m.scl!=scl||m.sda!=sda), "bus activity while not busy");
  if(m.op==NONE && accept==false) { }
  if(ev_start){ CHECK(m.op==START && m.ev==0, "unexpected start condition during operation %d", m.op); m.ev=1; COVER("start"); COVERIF(m.bit,"repeated start"); }
  if(ev_stop){ CHECK(m.op==STOP && m.ev==0, "unexpected stop condition during operation %d", m.op); m.ev=1; COVER("stop"); }
  if(fall||rise){
    CHECK(m.ev==0, "clock changes after the condition of operation %d", m.op);
    if(m.run<63){
      int need = PERIOD/2;
      CHECK(m.run>=need, "clock %s phase lasts %d cycles, at least %d required (period %d)", fall?"high":"low", m.run, need, PERIOD);
      if(fall) CHECK(m.run+m.low>=PERIOD || m.low==0, "clock period %d, at least %d required", m.run+m.low, PERIOD);
    }
  }
  if(rise){
    m.low=m.run;
    if(m.op==WRITE){
      if(m.bit<8) CHECK(sda==((m.wdata>>(7-m.bit))&1), "written bit %d is %d, expected %d of %02x", m.bit, sda, (m.wdata>>(7-m.bit))&1, m.wdata);
      else { CHECK(isda, "initiator drives the acknowledge bit of a write"); }
      m.bit++; CHECK(m.bit<=9, "more than nine clocks for a write");
    } else if(m.op==READ){
      if(m.bit<8) CHECK(isda, "initiator drives data bit %d of a read", m.bit);
      else CHECK(isda==!m.rack, "acknowledge bit of a read is %d, requested ack=%d", sda, m.rack);
      m.bit++; CHECK(m.bit<=9, "more than nine clocks for a read");
    } else { m.bit++; CHECK(m.bit<=1, "more than one clock for a start or stop"); }
  }
  // completion
  if(m.op!=NONE){
    if(!d.busy){
      if(m.op==START) CHECK(m.ev, "start finished without a start condition");
      if(m.op==STOP) CHECK(m.ev, "stop finished without a stop condition");
      if(m.op==WRITE){ CHECK(m.bit==9, "write finished after %d clocks", m.bit); CHECK(d.ack_o==m.ack, "ack_o=%d, target answered %d",(int)d.ack_o,m.ack); m.known|=1; m.expack=m.ack;
        COVERIF(m.ack,"acked"); COVERIF(!m.ack,"not acked"); }
      if(m.op==READ){ CHECK(m.bit==9, "read finished after %d clocks", m.bit); CHECK(d.data_o==m.rdata, "data_o=%02x, target sent %02x",(int)d.data_o,m.rdata); m.known|=2; m.expdata=m.rdata; COVER("read"); }
      m.op=NONE; m.bit=m.ev=0; m.wdata=m.rdata=m.ack=m.rack=0; m.t=0; m.idlec=0; if(m.nops<100) m.nops++;
#ifndef ONESHOT
      m.nops=0;
#endif
      // the next command is chosen from the next step on
      accept=false; d.start=d.stop=d.write=d.read=0; d.data_i=0; d.ack_i=0; d.comb();
    } else {
      bool held = m.scl==0 && m.tscl==0;
      if(!held){ m.t++; CHECK(m.t<=22*(4*(PERIOD/4+1)+8), "operation %d does not finish", m.op); }
    }
  } else if(!accept){
    if(d.busy) { CHECK(++m.t<=3, "busy without an operation"); }
    else m.t=0;
    if(m.idlec<2) m.idlec++;
  }
  if(accept){
    m.op=cmd; m.bit=m.ev=0; m.t=0; m.idlec=0;
    if(cmd==WRITE){ m.wdata=wd; m.ack=ch(2); }
    if(cmd==READ){ m.rdata=RB[ch(sizeof RB)]; m.rack=ra; }
  }
  // target drivers for the next cycle
  if(scl==0 || !iscl){
    if(fall){ m.stretch = STRETCH && ((1<<m.bit)&STRETCHBITS) ? ch(2)*STRETCH : 0; if(m.stretch) COVER("stretched"); }
    // data is put on the line right after the falling edge
    if(m.op==WRITE) m.tsda = m.bit==8 ? !m.ack : 1;
    else if(m.op==READ) m.tsda = m.bit<8 ? (m.rdata>>(7-m.bit))&1 : 1;
    else m.tsda=1;
    if(LATE && m.stretch>=3 && (m.op==READ ? m.bit<8 : m.op==WRITE && m.bit==8)){ m.tsda=!m.tsda; COVER("late data"); }
    m.tscl = m.stretch==0;
    if(m.stretch) m.stretch--;
  } else m.tscl=1;
  m.run = (fall||rise) ? 1 : m.run<63 ? m.run+1 : 63;
  if(m.run==63) m.low=0;
  m.scl=scl; m.sda=sda;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from mc.i2cpads import Pads
    from amlib.io.i2c import I2CInitiator

    def mk(period, stretch):
        def build():
            p = Pads()
            t = I2CInitiator(p, period) if stretch else I2CInitiator(p, period, clk_stretch=False)
            ins, outs = p.ports()
            ins.update({n: getattr(t, n) for n in ("start", "stop", "read", "write", "data_i", "ack_i")})
            outs.update({n: getattr(t, n) for n in ("busy", "ack_o", "data_o")})
            return t, ins, outs
        return build
    out = []
    base = {"WALPHA": "0xA5,0x3C,0x01", "RALPHA": "0x5A,0xC3", "STRETCH": 0, "STRETCHBITS": 0, "STRAY": 0, "PAUSE": 0, "LATE": 0}

    def add(name, period, stretch, cov=(), **kw):
        c = dict(base, PERIOD=period, **kw)
        out.append(Cfg(name, mk(period, stretch), CPP, c, covers=["start", "stop", "acked", "not acked", "read"] + list(cov),
                       ntraces=4, max_states=30_000_000, cost=3))
    add("p4_nostretch", 4, False)
    add("p8_nostretch", 8, False)
    add("p4_stretch", 4, True, ["stretched"], STRETCH=3, STRETCHBITS=0x101, WALPHA="0xA5", RALPHA="0x5A")
    add("p8_stretch", 8, True, ["stretched"], STRETCH=11, STRETCHBITS=0x188, WALPHA="0x96", RALPHA="0x69")
    add("p4_late", 4, True, ["stretched", "late data"], STRETCH=13, STRETCHBITS=0x101, WALPHA="0xA5", RALPHA="0x5A", LATE=1)
    add("p8_late", 8, True, ["stretched", "late data"], STRETCH=24, STRETCHBITS=0x110, WALPHA="0x96", RALPHA="0x69", LATE=1)
    add("p12_pause", 12, True, PAUSE=1, WALPHA="0xA5", RALPHA="0x5A")
    add("p4_stray", 4, True, STRAY=1, WALPHA="0x5A", RALPHA="0xC3")
    allb = ",".join(map(str, range(256)))
    for p, s in ((4, False), (8, True)):
        c = dict(base, PERIOD=p, ONESHOT=1, WALPHA=allb, RALPHA=allb)
        out.append(Cfg(f"p{p}_allbytes", mk(p, s), CPP, c, covers=["start", "stop", "acked", "not acked", "read"], ntraces=4, cost=3))
    for p in (5, 6, 7, 10):
        add(f"p{p}", p, True, WALPHA="0xA5", RALPHA="0x5A")
    add("p40", 40, True, WALPHA="0xA5", RALPHA="0x5A")
    add("p100", 100, False, WALPHA="0xA5", RALPHA="0x5A")
    if tier == "thorough":
        add("p16", 16, True, ["stretched"], STRETCH=20, STRETCHBITS=0x1ff, WALPHA="0xA5", RALPHA="0x5A")
        add("p4_stretch_all", 4, True, ["stretched"], STRETCH=5, STRETCHBITS=0x1ff, WALPHA="0xA5,0x3C", RALPHA="0x5A,0xC3", PAUSE=1)
        add("p10_late_all", 10, True, ["stretched", "late data"], STRETCH=30, STRETCHBITS=0x1ff, WALPHA="0x96", RALPHA="0x69", LATE=1)
        add("p20", 20, False, WALPHA="0xA5,0x01,0x80,0xff,0x00", RALPHA="0x5A,0x01,0x80,0xff,0x00", STRAY=1)
    return out

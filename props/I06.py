"""I2CInitiator and I2CTarget on one open-drain bus: command level reference, nondeterministic commands and target user."""
from mc.runner import Cfg

ASSUMPTIONS = ["bus period >= 16 system cycles (the value the repository itself uses)",
               "commands follow the protocol: an address write after each start, only reads or a stop after an acknowledged read, "
               "reads after a read address, writes after a write address",
               "the target's user raises busy in the strobe cycle (documented as experimental) and for at most BUSY cycles"]

CPP = r"""
static const u8 DB[]={ALPHA};
enum { NONE, START, STOP, WRITE, READ };
enum { FREE, STARTED, WR, RD, RDNAK, FOREIGN_W, FOREIGN_R };
#define LIMIT (9*(PERIOD+12)+BUSY+40)
struct Mon {
  u8 st, op, wb, rack, isaddr, idle; u16 t;
  u8 ub, cur[2], wrp, rdp, busy;
  u16 e_start, e_stop, e_restart, e_write, e_read;
  u8 ackcur;
};
static int init(D& d, Mon& m, Ch& ch){ m.ub=DB[0]; return OK_; }
static int strobe(const char* n, int got, u16& e, int limit){
  if(got){ CHECK(e, "%s strobe without cause", n); e=0; }
  else if(e){ e++; CHECK(e<=limit, "%s strobe is missing", n); }
  return OK_;
}
static int step(D& d, Mon& m, Ch& ch){
  d.address=ADDRESS; d.data_o=m.ub;
  d.comb();
  CHECK(!(d.scl_drive) && !(d.sda_drive), "a line is driven high");
  // completion of the running operation
  if(m.op!=NONE){
    m.t++;
    CHECK(m.t<=9*(4*(PERIOD/4+1)+8)+BUSY+40, "operation %d never completes", m.op);
    if(!d.busy_o && m.t>1){
      COVERIF(m.op==WRITE && !m.isaddr && m.st==WR, "data write"); COVERIF(m.op==READ && m.st==RD, "data read");
      if(m.op==WRITE){
        int e = m.isaddr ? (m.wb>>1)==ADDRESS : m.st==WR ? m.ackcur : 0;
        CHECK(d.ack_o==e, "write of %02x returned ack=%d, expected %d", m.wb, (int)d.ack_o, e);
        CHECK(!m.e_write, "write strobe missing");
        if(m.isaddr) m.st = (m.wb>>1)==ADDRESS ? ((m.wb&1) ? RD : WR) : ((m.wb&1) ? FOREIGN_R : FOREIGN_W);
      } else if(m.op==READ){
        int e = m.st==RD ? m.cur[m.rdp] : 0xff;
        CHECK(d.rdata==e, "read returned %02x, target user supplied %02x", (int)d.rdata, e);
        if(m.st==RD){ m.cur[m.rdp]=0; m.rdp^=1; if(!m.rack){ m.st=RDNAK; } }
      } else if(m.op==START) m.st=STARTED;
      else m.st=FREE;
      if(m.op==START||m.op==STOP){ m.rdp=m.wrp=0; m.cur[0]=m.cur[1]=0; }
      m.op=NONE; m.wb=0; m.isaddr=0; m.t=0; m.idle=0;
    }
  } else if(!d.busy_o){
    // a new command
    int c=NONE;
    switch(m.st){
      case FREE: c=START; break;
      case STARTED: c=ch(2)?STOP:WRITE; break;
      case WR: { int k=ch(3); c=k==0?WRITE:k==1?STOP:START; break; }
      case FOREIGN_W: { int k=ch(3); c=k==0?WRITE:k==1?STOP:START; break; }
      case RD: if(m.rack) c=ch(2)?READ:STOP; else c=READ; break;
      case RDNAK: c=ch(2)?STOP:START; break;
      case FOREIGN_R: { int k=ch(3); c=k==0?READ:k==1?STOP:START; break; }
    }
    if(PAUSE && m.idle<1 && ch(2)){ c=NONE; m.idle++; }
    if(c!=NONE){
      m.op=c; m.t=0;
      bool addressed = m.st==WR || m.st==RD;
      if(c==START){ d.start=1; if(addressed){ m.e_restart=1; COVER("restart"); } }
      if(c==STOP){ d.stop=1; if(addressed) m.e_stop=1; COVERIF(m.st==RD,"stop after acknowledged read"); }
      if(c==WRITE){ d.write=1; if(m.st==STARTED){ m.isaddr=1; m.wb=((ch(3)?ADDRESS:OTHERADDR)<<1)|ch(2); if((m.wb>>1)==ADDRESS) m.e_start=1; if((m.wb>>1)==ADDRESS && (m.wb&1)) m.e_read=1; }
                    else { m.wb=DB[ch(sizeof DB)]; if(m.st==WR) m.e_write=1; } d.data_i=m.wb; }
      if(c==READ){ d.read=1; m.rack = m.st==FOREIGN_R ? ch(2) : ch(2); d.ack_i=m.rack; if(m.st==RD){ if(m.rack) m.e_read=1; else m.e_stop=1; } }
      if(c!=READ) m.rack=0;
    }
  }
  d.busy=m.busy!=0;
  d.comb();
  bool w=d.t_write, r=d.t_read;
  if(w){ CHECK(m.op==WRITE && !m.isaddr, "write strobe outside a data write"); CHECK(d.t_data_i==m.wb, "target received %02x, initiator wrote %02x",(int)d.t_data_i,m.wb);
    m.ackcur=0;
    if(BUSY && ch(2)){ m.busy=1; d.busy=1; } else m.ackcur=ch(2);
    d.t_ack=m.ackcur; COVER("write"); }
  else if(r){ m.cur[m.wrp]=m.ub; m.wrp^=1; if(BUSY && ch(2)){ m.busy=2; d.busy=1; } COVER("read"); }
  else if(m.busy){
    COVERIF((m.busy&3)==1 && m.busy/4>20,"long write stretch"); COVERIF((m.busy&3)==2 && m.busy/4>20,"long read stretch");
    if(m.busy/4>=BUSY-1 || ch(2)){ if((m.busy&3)==1){ m.ackcur=ch(2); d.t_ack=m.ackcur; } m.busy=0; d.busy=0; }
    else if((m.busy&3)==2) m.cur[m.wrp^1]=m.ub;
  }
  d.comb();
  RUN(strobe("start",d.t_start,m.e_start,LIMIT)); RUN(strobe("stop",d.t_stop,m.e_stop,LIMIT)); RUN(strobe("restart",d.t_restart,m.e_restart,LIMIT));
  RUN(strobe("write",w,m.e_write,LIMIT)); RUN(strobe("read",r,m.e_read,LIMIT));
  if(r) m.ub=DB[ch(sizeof DB)];
  if(m.busy && m.busy/4<60) m.busy+=4;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Module, Signal
    from mc.i2cpads import Pads
    from amlib.io.i2c import I2CInitiator, I2CTarget

    def mk(period, stretch):
        def build():
            m = Module()
            a, b = Pads("a"), Pads("b")
            m.submodules.ini = i = I2CInitiator(a, period, clk_stretch=stretch)
            m.submodules.tgt = t = I2CTarget(b)
            sd, cd = Signal(), Signal()
            for p in (a, b):
                for n in ("scl_t", "sda_t"):
                    m.d.comb += getattr(p, n).i.eq(~((getattr(a, n).oe & ~getattr(a, n).o) | (getattr(b, n).oe & ~getattr(b, n).o)))
            m.d.comb += [cd.eq((a.scl_t.oe & a.scl_t.o) | (b.scl_t.oe & b.scl_t.o)), sd.eq((a.sda_t.oe & a.sda_t.o) | (b.sda_t.oe & b.sda_t.o))]
            ins = {"start": i.start, "stop": i.stop, "read": i.read, "write": i.write, "data_i": i.data_i, "ack_i": i.ack_i,
                   "address": t.address, "busy": t.busy, "t_ack": t.ack_o, "data_o": t.data_o}
            outs = {"busy_o": i.busy, "ack_o": i.ack_o, "rdata": i.data_o, "t_start": t.start, "t_stop": t.stop, "t_restart": t.restart,
                    "t_write": t.write, "t_data_i": t.data_i, "t_read": t.read, "scl_drive": cd, "sda_drive": sd}
            return m, ins, outs
        return build
    base = {"ALPHA": "0xA5,0x3C", "ADDRESS": "0x2A", "OTHERADDR": "0x6A", "BUSY": 0, "PAUSE": 0}
    cov = ["write", "read", "data write", "data read", "restart", "stop after acknowledged read"]
    out = []

    def add(name, period, stretch, cv=(), **kw):
        out.append(Cfg(name, mk(period, stretch), CPP, dict(base, PERIOD=period, **kw), covers=cov + list(cv), ntraces=4, max_states=40_000_000, cost=4))
    add("p16", 16, True)
    add("p16_nostretch", 16, False, PAUSE=1, ALPHA="0x96", ADDRESS="0x55", OTHERADDR="0x54")
    add("p20", 20, True, ALPHA="0x01,0xFE", ADDRESS="0x01", OTHERADDR="0x7e")
    add("p16_busy", 16, True, ["long write stretch", "long read stretch"], BUSY=40, ALPHA="0x96")
    add("p24_busy", 24, True, ["long write stretch", "long read stretch"], BUSY=50, ALPHA="0x69")
    add("p17", 17, True, ["long write stretch", "long read stretch"], BUSY=44, ALPHA="0xA5")
    add("p100", 100, True, ALPHA="0x5A")
    add("p31_nostretch", 31, False, PAUSE=1, ALPHA="0xC3")
    if tier == "thorough":
        add("p16_busy2", 16, True, ["long write stretch", "long read stretch"], BUSY=60, ALPHA="0x96,0x0f,0xf1", PAUSE=1)
        add("p17", 17, True, ["long write stretch", "long read stretch"], BUSY=44, ALPHA="0xA5,0x3C")
        add("p32_busy", 32, True, ["long write stretch", "long read stretch"], BUSY=60, ALPHA="0x5A,0xC3")
        add("p16_many", 16, True, ALPHA="0x00,0xff,0x80,0x01,0x55,0xaa,0x0f,0xf0")
    return out

"""I2CTarget against a bus-level reference, driven by a free bit-level initiator that may abort anywhere."""
from mc.runner import Cfg

ASSUMPTIONS = ["clock low >= 10 and clock high >= 6 system cycles; strobes must follow the bus condition within 7 cycles",
               "data bytes come from the configuration's alphabet, address bytes are completely free",
               "clock stretching (busy, documented as experimental) is raised in the cycle of the read/write strobe; "
               "acknowledge is raised within the two cycles after the write strobe or at the latest in the cycle in which busy falls; strobes while the clock is high or during data bits are ignored",
               "a not-acknowledged read byte ends the transaction and counts as its stop (as the code does)"]

CPP = r"""
static const u8 DB[]={ALPHA};
enum { IDLE, ADDR, AACK, WDATA, WACK, RDATA, RACK, IGNORE };
enum { S_IDLE, S_STARTED, S_LOW1, S_LOW2, S_RISE, S_HIGH };
struct Mon {
  u8 seg, cnt, scl, sda;       // initiator bit engine (drivers)
  u8 pscl, psda, ptoe;         // previous line levels / target data driver
  u8 ph, bit, byte, sh;        // reference: phase, clocks done, byte the initiator sends, byte received on the line
  u8 abortstop;                // a zero is forced on a read bit to stop right afterwards
  u8 rw, ub, cur, ack, busy, newub;   // user side
  u8 e_start, e_stop, e_restart, e_write, e_read;  // expected strobes (age+1)
  u8 wbyte, adel;             // adel: cycles until a delayed acknowledge is strobed (+1)
};
static int init(D& d, Mon& m, Ch& ch){ m.scl=m.sda=m.pscl=m.psda=1; m.ub=DB[0]; m.cnt=12; return OK_; }
static int strobe(const char* n, int got, u8& e){
  if(got){ CHECK(e, "%s strobe without cause", n); e=0; }
  else if(e){ e++; CHECK(e<=8, "%s strobe is missing", n); }
  return OK_;
}
static int step(D& d, Mon& m, Ch& ch){
  d.address=ADDRESS;
  d.data_o=m.ub;
  d.comb();
  CHECK(!(d.scl_oe && d.scl_o) && !(d.sda_oe && d.sda_o), "a line is driven high (not open drain)");
  // initiator moves at segment ends
  if(m.cnt) m.cnt--;
  else switch(m.seg){
    case S_IDLE: m.sda=0; m.seg=S_STARTED; m.cnt=KH; break;
    case S_STARTED: if(EARLYSTOP && ch(2)){ m.sda=1; m.seg=S_IDLE; m.cnt=KL; COVER("start-stop"); } else { m.scl=0; m.seg=S_LOW1; m.cnt=KL; } break;
    case S_LOW1: {
      // the reference phase tells what the initiator may send now
      m.abortstop=0; int b=1;
      if(m.ph==ADDR || m.ph==IGNORE || m.ph==IDLE || m.ph==WDATA){
        if(m.bit==0) m.byte = m.ph==ADDR ? (FREEADDR ? ch(256) : (ADDRESS<<1 | ch(2)) ^ (ch(2)?0x10:0)) : DB[ch(sizeof DB)];
        b=(m.byte>>(7-m.bit%8))&1;
      } else if(m.ph==RDATA){ if(ABORT && ch(2)){ m.abortstop=1; b=0; } }
      else if(m.ph==RACK){ b=ch(2); }
      m.sda=b; m.seg=S_LOW2; m.cnt=KL; break; }
    case S_LOW2: m.scl=1; m.seg=S_RISE; m.cnt=0; break;
    case S_RISE: break;
    case S_HIGH: {
      int k = 0;
      bool line_low_by_target = d.sda_oe;
      if(m.abortstop) k = line_low_by_target ? 0 : 2;
      else if(!line_low_by_target){
        if(m.sda && m.ph!=AACK) k = ABORT ? ch(2) : 0;              // repeated start
        else if(!m.sda) k = (ABORT || m.ph==RACK || m.bit==1) ? ch(2)*2 : 0;      // stop
      }
      if(k==1){ m.sda=0; m.seg=S_STARTED; m.cnt=KH; }
      else if(k==2){ m.sda=1; m.seg=S_IDLE; m.cnt=KL; }
      else { m.scl=0; m.seg=S_LOW1; m.cnt=KL; }
      break; }
  }
  int scl=m.scl & !d.scl_oe, sda=m.sda & !d.sda_oe;
  d.scl_i=scl; d.sda_i=sda;
  if(m.seg==S_RISE && scl){ m.seg=S_HIGH; m.cnt=KH; }
  bool fall=m.pscl&&!scl, rise=!m.pscl&&scl, st=m.pscl&&scl&&m.psda&&!sda, sp=m.pscl&&scl&&!m.psda&&sda;
  CHECK(!(m.pscl && scl && m.ptoe!=d.sda_oe), "target changes data while the clock is high");
  CHECK(!(rise && m.ptoe!=d.sda_oe), "target changes data together with the rising clock");
  bool addressed = m.ph>=AACK && m.ph<=RACK;
  CHECK(addressed || !d.scl_oe, "target holds the clock although not addressed");
  CHECK(addressed || m.ph==ADDR || !d.sda_oe || m.pscl!=1, "target drives data although not addressed");
  // reference
  if(st){ COVER("start"); if(addressed){ m.e_restart=1; COVER("restart"); } m.ph=ADDR; m.bit=0; m.sh=0; }
  else if(sp){ if(addressed){ m.e_stop=1; COVERIF(m.ph==WDATA||m.ph==WACK,"stop in write"); COVERIF(m.ph==RDATA,"stop in read"); } m.ph=IDLE; m.bit=0; m.sh=0; m.byte=0; }
  else if(rise){
    switch(m.ph){
      case ADDR: case WDATA: CHECK(!d.sda_oe, "target drives data while receiving"); m.sh=(m.sh<<1)|sda; m.bit++; break;
      case IGNORE: case IDLE: CHECK(!d.sda_oe, "target drives data although not addressed"); m.bit=(m.bit+1)%9; break;
      case AACK: CHECK(d.sda_oe, "address is not acknowledged"); m.bit++; COVER("address ack");
        if(m.rw){ m.e_read=1; } break;
      case WACK: CHECK(d.sda_oe==m.ack, "write acknowledge is %d, user chose %d",(int)d.sda_oe,m.ack); m.bit++; COVERIF(m.ack,"ack"); COVERIF(!m.ack,"nak"); break;
      case RDATA: CHECK(!m.e_read, "read strobe missing before data");
        CHECK(d.sda_oe==!((m.cur>>(7-m.bit))&1), "sent bit %d is %d, user byte is %02x",m.bit,!d.sda_oe,m.cur); m.bit++; break;
      case RACK: CHECK(!d.sda_oe, "target drives the acknowledge bit of a read"); m.bit++; 
        if(sda){ m.e_stop=1; m.ph=IGNORE; m.bit=0; m.sh=0; COVER("read nak"); } else { m.e_read=1; COVER("read ack"); } break;
    }
  } else if(fall){
    switch(m.ph){
      case ADDR: if(m.bit==8){ if((m.sh>>1)==ADDRESS){ m.ph=AACK; m.rw=m.sh&1; m.e_start=1; } else { m.ph=IGNORE; m.bit=8; COVER("foreign address"); } m.sh=0; } break;
      case AACK: m.ph = m.rw ? RDATA : WDATA; m.bit=0; m.byte=0; break;
      case WDATA: if(m.bit==8){ m.ph=WACK; m.e_write=1; m.wbyte=m.sh; m.sh=0; m.ack=0; } break;
      case WACK: m.ph=WDATA; m.bit=0; break;
      case RDATA: if(m.bit==8) m.ph=RACK; break;
      case RACK: m.ph=RDATA; m.bit=0; break;
    }
  }
  // user side; strobes are combinational functions of registers and of the bus inputs two cycles ago
  d.busy = m.busy!=0;
  d.comb();
  bool w=d.write, r=d.read;
  if(m.newub){ }
  if(w){ CHECK(d.data_i==m.wbyte, "received byte %02x reported as %02x", m.wbyte, (int)d.data_i);
    if(BUSY && ch(2)){ m.busy=1; d.busy=1; }
    else { m.ack=ch(2); if(LATE && m.ack) m.adel=ch(LATE+1); }
    if(m.ack && !m.adel) d.ack_o=1;
    COVER("write"); }
  else if(r){
    m.cur=m.ub;
    if(BUSY && ch(2)){ m.busy=2; d.busy=1; }
    COVER("read");
  } else if(m.busy){
    COVERIF((m.busy&3)==2 && d.scl_oe,"stretched read"); COVERIF((m.busy&3)==1 && d.scl_oe,"stretched write");
    // may end in any cycle; one run of stretching lasts at most BUSY cycles
    bool end = m.busy/4>=BUSY-1 || ch(2);
    if(end){ if((m.busy&3)==1){ m.ack=ch(2); d.ack_o=m.ack; } m.busy=0; d.busy=0; }
    else if((m.busy&3)==2) m.cur=m.ub;      // the byte present while busy is the one sent
  }
  if(!w && m.adel && !--m.adel){ d.ack_o=1; COVER("delayed ack"); }
  // outside the setup period of the acknowledge bit the user's strobe has no meaning
  if(LATE && ((m.seg==S_HIGH && scl && m.cnt==1) || ((m.ph==WDATA || m.ph==RDATA) && m.bit==3 && m.seg==S_LOW2 && m.cnt==1)) && ch(2)){ d.ack_o=1; COVERIF(m.ph==WACK && !m.ack,"stray ack strobe"); }
  d.comb();
  CHECK(d.write==w && d.read==r, "strobes depend on the user's answer");
  RUN(strobe("start",d.start,m.e_start)); RUN(strobe("stop",d.stop,m.e_stop)); RUN(strobe("restart",d.restart,m.e_restart));
  RUN(strobe("write",d.write,m.e_write)); RUN(strobe("read",d.read,m.e_read));
  // next user byte is chosen right after a read strobe; with busy that byte is the one sent
  if(r) m.ub=DB[ch(sizeof DB)];
  if(m.busy){ if(m.busy/4<60) m.busy+=4; }
  m.pscl=scl; m.psda=sda; m.ptoe=d.sda_oe;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from mc.i2cpads import Pads
    from amlib.io.i2c import I2CTarget

    def build():
        p = Pads()
        t = I2CTarget(p)
        ins, outs = p.ports()
        ins.update({n: getattr(t, n) for n in ("address", "busy", "ack_o", "data_o")})
        outs.update({n: getattr(t, n) for n in ("start", "stop", "restart", "write", "data_i", "read")})
        return t, ins, outs
    base = {"ALPHA": "0xA5,0x3C", "ADDRESS": "0x2A", "FREEADDR": 0, "ABORT": 0, "BUSY": 0, "LATE": 0, "EARLYSTOP": 0, "KL": 4, "KH": 5}
    out = []
    cov = ["start", "address ack", "write", "read", "read ack", "read nak", "ack", "nak"]

    def add(name, cv=(), **kw):
        out.append(Cfg(name, build, CPP, dict(base, **kw), covers=cov + list(cv), ntraces=4, max_states=40_000_000, cost=4))
    add("alpha", ["foreign address"], ALPHA="0xA5,0x3C,0x00,0xFF")
    add("freeaddr", ["foreign address"], FREEADDR=1, ALPHA="0x96")
    add("abort", ["restart", "stop in write", "stop in read", "start-stop"], ABORT=1, EARLYSTOP=1, ALPHA="0xA5", ADDRESS="0x55")
    add("abort_hi", ["restart", "stop in write", "stop in read"], ABORT=1, ALPHA="0xFE,0x01", ADDRESS="0x7f")
    add("busy", ["stretched read", "stretched write"], BUSY=24, ALPHA="0x96")
    add("busy2", ["stretched read", "stretched write"], BUSY=20, ALPHA="0x69,0xA5", KL=6, KH=7, ADDRESS="0x01")
    add("late_ack", ["delayed ack", "stray ack strobe"], LATE=2, ALPHA="0xA5")
    add("slow", ["foreign address"], KL=40, KH=23, ALPHA="0x96,0x0F")
    add("slow_busy", ["stretched read", "stretched write"], BUSY=56, ALPHA="0xC3", KL=5, KH=33, ADDRESS="0x40")
    add("freeaddr_busy_late", ["foreign address", "stretched read", "stretched write", "delayed ack"], FREEADDR=1, BUSY=8, LATE=1, ALPHA="0x81")
    if tier == "thorough":
        add("abort_freeaddr", ["restart", "stop in write", "stop in read"], ABORT=1, FREEADDR=1, EARLYSTOP=1, ALPHA="0x5A,0xC3")
        add("busy_abort", ["stretched read", "stretched write", "restart"], BUSY=24, ABORT=1, ALPHA="0x96,0x0f")
        add("bytes", ALPHA=",".join(str(x) for x in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 254, 127, 0x55, 0xaa, 0x0f, 0xf0)))
    return out

"""I2CStreamTransmitter on an open-drain bus: the byte/packet sequence decoded from the lines against the accepted stream words."""
from mc.runner import Cfg

ASSUMPTIONS = ["producer holds a word until it is accepted and sends well-formed packets (first flag on the first word, last flag on the final one)",
               "passive target: acknowledges or not, stretches only the low clock; a not-acknowledged byte does not end the packet (as in the code)",
               "bytes from the alphabet of the configuration (one configuration uses all bytes)"]

CPP = r"""
static const u8 AB[]={ALPHA};
#define Q (DEPTH+2)
#ifndef EAGER
#define EAGER 0
#endif
struct Mon {
  u16 q[Q]; u8 n;                    // accepted, not yet seen on the bus: byte | first<<8 | last<<9
  u8 pv, pfirst, plast, pdata, inpkt;   // producer
  u8 scl, sda, tscl, tsda, stretch;
  u8 in, bit, sh, gotlast, nwords, pos, len;
  u16 t;
};
static int init(D& d, Mon& m, Ch& ch){ m.scl=m.sda=m.tscl=m.tsda=1; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.comb();
  CHECK(!(d.scl_oe && d.scl_o) && !(d.sda_oe && d.sda_o), "a line is driven high (not open drain)");
  int scl=!d.scl_oe & m.tscl, sda=!d.sda_oe & m.tsda;
  d.scl_i=scl; d.sda_i=sda;
  bool may = MAXWORDS==0 || m.nwords<MAXWORDS;
  if(!EAGER && !m.pv && may && ch(2)){ m.pv=1; m.pdata= MAXWORDS && m.nwords ? ~m.q[m.n?m.n-1:0] : AB[ch(sizeof AB)]; m.pfirst=!m.inpkt; m.plast=ch(2); if(MAXWORDS && m.nwords==MAXWORDS-1) m.plast=1; }
  if(EAGER && !m.pv){       // an eager producer of packets of a few lengths keeps the FIFO full
    static const u8 LN[]={3,20};
    if(!m.len){ m.len=LN[ch(2)]; m.pos=0; }
    m.pv=1; m.pdata=m.pos*0x5b+m.len; m.pfirst=m.pos==0; m.plast=++m.pos==m.len; if(m.plast) m.len=0;
  }
  d.valid=m.pv; d.payload=m.pv?m.pdata:0; d.first=m.pv&&m.pfirst; d.last=m.pv&&m.plast;
  d.comb();
  bool fall=m.scl&&!scl, rise=!m.scl&&scl, st=m.scl&&scl&&m.sda&&!sda, sp=m.scl&&scl&&!m.sda&&sda;
  CHECK(!((fall||rise) && m.sda!=sda), "data and clock change in the same cycle");
  if(st){
    CHECK(!m.in, "start condition inside a packet"); CHECK(m.n && (m.q[0]&0x100), "start condition without a packet");
    m.in=1; m.bit=0; m.gotlast=0; m.sh=0; COVER("start");
  }
  if(sp){
    CHECK(m.in && m.gotlast && m.bit<=1, "stop condition although the packet is not complete (bit %d)", m.bit);
    m.in=0; m.bit=0; m.gotlast=0; m.sh=0; COVER("stop");
  }
  if(rise){
    if(!m.in){ CHECK(sda && m.n && m.bit==0, "clock pulse outside a transaction"); m.bit=1; }   // re-start sequence on the idle bus: harmless
    else if(m.bit<8){
      m.sh=(m.sh<<1)|sda; m.bit++;
      if(m.bit==8){
        CHECK(!m.gotlast, "byte %02x after the last byte of the packet", m.sh);
        CHECK(m.n, "byte %02x on the bus that was never streamed", m.sh);
        CHECK((m.q[0]&0xff)==m.sh, "byte on the bus is %02x, streamed %02x", m.sh, m.q[0]&0xff);
        m.gotlast=(m.q[0]>>9)&1;
        for(int i=1;i<m.n;i++) m.q[i-1]=m.q[i]; m.q[--m.n]=0;
        COVERIF(!m.gotlast && m.n==0,"producer late"); COVERIF(m.gotlast && m.n,"next packet waiting");
      }
    } else { CHECK(!d.sda_oe, "transmitter drives the acknowledge bit"); m.bit=0; m.sh=0; }
  }
  if(fall||rise||st||sp || (m.n==0 && !m.gotlast) || !m.tscl || (m.in && m.n==0 && m.bit==0 && !m.gotlast)) m.t=0;
  else if(m.n || m.gotlast || m.bit) CHECK(++m.t<=12*(PERIOD/4+2)+12, "streamed data is not sent");
  // accept
  if(m.pv){
    if(d.ready){ CHECK(m.n<Q, "more words accepted than can be stored"); m.q[m.n++]=m.pdata|m.pfirst<<8|m.plast<<9; m.inpkt=!m.plast; m.pv=m.pdata=m.pfirst=m.plast=0; if(MAXWORDS) m.nwords++; }
    else { CHECK(m.n>=DEPTH-1, "transmitter not ready although it has room (%d words)", m.n); COVER("back-pressure"); }
  }
  // target
  if(!scl){
    if(fall){ m.stretch = STRETCH && (m.bit==0||m.bit==8) ? ch(2)*STRETCH : 0; m.tsda = m.bit==8 ? (EAGER ? m.sh&1 : ch(2)) : 1; COVERIF(m.bit==8&&m.tsda,"nak"); COVERIF(m.bit==8&&!m.tsda,"ack"); if(m.stretch) COVER("stretched"); }
    m.tscl=m.stretch==0; if(m.stretch) m.stretch--;
  } else m.tscl=1;
  m.scl=scl; m.sda=sda;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from mc.i2cpads import Pads
    from amlib.stream.i2c import I2CStreamTransmitter

    def mk(period, stretch, depth):
        def build():
            p = Pads()
            t = I2CStreamTransmitter(p, period, clk_stretch=stretch, fifo_depth=depth)
            s = t.stream_in
            ins, outs = p.ports()
            ins.update({"valid": s.valid, "payload": s.payload, "first": s.first, "last": s.last})
            outs.update({"ready": s.ready})
            return t, ins, outs
        return build
    out = []

    def add(name, period, stretch, depth, cov=(), bp=True, **kw):
        c = dict({"ALPHA": "0xA5,0x3C", "STRETCH": 0, "MAXWORDS": 0}, PERIOD=period, DEPTH=depth, **kw)
        out.append(Cfg(name, mk(period, stretch, depth), CPP, c,
                       covers=["start", "stop", "next packet waiting", "ack", "nak"] + ([] if kw.get("EAGER") else ["producer late"]) + (["back-pressure"] if bp else []) + list(cov),
                       ntraces=4, max_states=40_000_000, cost=3))
    add("p4_d2", 4, False, 2)
    add("p8_d2_stretch", 8, True, 2, ["stretched"], STRETCH=9, ALPHA="0x96")
    add("p4_d4", 4, False, 4, ALPHA="0xC3")
    add("p16_d3", 16, True, 3, ALPHA="0x5A")
    add("allbytes", 4, True, 4, bp=False, ALPHA=",".join(map(str, range(256))), MAXWORDS=2)
    add("p4_d16", 4, False, 16, EAGER=1)
    add("p13_d2", 13, False, 2, EAGER=1)
    add("p10_d3_ab", 10, False, 3, EAGER=1, ALPHA="0xA5,0x01")
    add("p7_d1_stretch", 7, True, 1, ["stretched"], STRETCH=6, ALPHA="0x69")
    add("p12_d1", 12, True, 1, EAGER=1)
    if tier == "thorough":
        add("p4_d3_ab", 4, True, 3, ["stretched"], STRETCH=3, ALPHA="0xA5,0x00,0xFF")
        add("p20_d4", 20, True, 4, ["stretched"], STRETCH=20, ALPHA="0xA5")
    return out

"""UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral: line decoded bit-exactly against the accepted words."""
from mc.runner import Cfg

ASSUMPTIONS = ["the producer holds a word until it is accepted (one configuration also withdraws and changes it freely)",
               "amaranth_soc is replaced by a stand-in that only supplies the Wishbone signal record",
               "a new frame may start up to 3 cycles after its word could be sent; bits inside a frame are exact to the cycle"]

CPP = r"""
static const u64 AB[]={ALPHA};
#define NB ((int)BYTES)
#define NA ((int)(sizeof AB/sizeof*AB))
struct Mon { u8 q[2*BYTES+2]; u8 n; u16 p; u8 act, cur, lat; u8 pv; u64 pd; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  if(!m.pv || FREE){ m.pd=0; m.pv=ch(2); if(m.pv) m.pd=AB[ch(NA)]; }
#ifdef BUS
  d.cyc=d.stb=m.pv; d.we=1; d.dat_w=m.pv?m.pd:0;
  if(!m.pv){ int k=ch(4); d.cyc=k&1; d.stb=k>>1; d.we=k==3?0:1; d.dat_w=AB[0]; }
#else
  d.valid=m.pv; d.payload=m.pd;
#endif
  d.comb();
  // line
  if(!m.act){
    if(d.tx==0){ CHECK(m.n, "start bit without an accepted word"); m.act=1; m.cur=m.q[0]; for(int i=1;i<m.n;i++) m.q[i-1]=m.q[i]; m.q[--m.n]=0; m.p=0; m.lat=0; COVER("frame"); }
    else if(m.n) CHECK(++m.lat<=3, "accepted word is not sent"); 
  }
  if(m.act){
    int b=m.p/DIV; int e = b==0?0: b==9?1: (m.cur>>(b-1))&1;
    CHECK(d.tx==e, "line is %d in cycle %d of the frame for %02x (bit %d)", (int)d.tx, m.p, m.cur, b);
  }
#ifdef DRIVING
  CHECK(d.driving==m.act, "driving=%d, frame in progress=%d",(int)d.driving,m.act);
  CHECK(d.idle==!m.act, "idle=%d, frame in progress=%d",(int)d.idle,m.act);
  COVERIF(m.act && m.p==10*DIV-1 && m.pv,"back to back");
#elif !defined BUS
  CHECK(!d.idle || m.n<=1, "idle although %d bytes are unsent", m.n);
  CHECK(m.act || m.n || d.idle, "not idle although nothing is pending");
  CHECK(!d.idle || d.ready, "idle but not ready");
#endif
  bool acc = m.pv && d.ready;
  CHECK(m.act || m.n || d.ready, "not ready although nothing is pending");
  if(acc){
    CHECK(m.n<NB+1, "word accepted while %d bytes are still unsent", m.n);
    COVERIF(m.n||m.act,"accepted during a frame");
    for(int i=0;i<NB;i++) m.q[m.n++]=m.pd>>(8*i);
    m.pv=0; m.pd=0;
  }
  if(m.act && ++m.p==10*DIV){ m.act=0; m.p=0; m.cur=0; }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.stream.uart import UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral

    def single(div):
        def build():
            u = UARTTransmitter(divisor=div)
            return u, {"valid": u.stream.valid, "payload": u.stream.payload}, {"ready": u.stream.ready, "tx": u.tx, "driving": u.driving, "idle": u.idle}
        return build

    def multi(div, nb):
        def build():
            u = UARTMultibyteTransmitter(byte_width=nb, divisor=div)
            return u, {"valid": u.stream.valid, "payload": u.stream.payload}, {"ready": u.stream.ready, "tx": u.tx, "idle": u.idle}
        return build

    def bus(div):
        def build():
            u = UARTTransmitterPeripheral(div)
            b = u.bus
            return u, {"cyc": b.cyc, "stb": b.stb, "we": b.we, "dat_w": b.dat_w}, {"ready": b.ack, "tx": u.tx}
        return build
    out = []
    allb = ",".join(map(str, range(256)))

    def add(name, b, cov=(), **kw):
        c = dict({"FREE": 0, "BYTES": 1, "ALPHA": allb}, **kw)
        out.append(Cfg(name, b, CPP, c, covers=["frame"] + list(cov), ntraces=4, max_states=20_000_000, cost=2))
    f = ["back to back"]
    add("single_1", single(1), f, DIV=1, DRIVING=1, ALPHA="0,1,2,4,8,16,32,64,128,255")
    add("single_2", single(2), f, DIV=2, DRIVING=1)
    add("single_3", single(3), f, DIV=3, DRIVING=1, FREE=1, ALPHA="0xa5,0x3c,0x00,0xff,0x01,0x80")
    add("single_5", single(5), f, DIV=5, DRIVING=1)
    add("single_16", single(16), f, DIV=16, DRIVING=1, ALPHA="0xa5,0x3c")
    add("multi2_2", multi(2, 2), ["accepted during a frame"], DIV=2, BYTES=2, ALPHA="0x0102,0xa53c,0xff00,0x8001")
    add("multi3_3", multi(3, 3), ["accepted during a frame"], DIV=3, BYTES=3, FREE=1, ALPHA="0x010203,0xa53cff")
    add("multi4_4", multi(4, 4), ["accepted during a frame"], DIV=4, BYTES=4, ALPHA="0x01020384,0xa53cff00,0x5566aabb")
    add("multi1_2", multi(2, 1), ["accepted during a frame"], DIV=2, BYTES=1, ALPHA="0,1,2,4,8,16,32,64,128,255,0xa5,0x5a")
    add("bus_3", bus(3), ["accepted during a frame"], DIV=3, BUS=1, ALPHA="0xa5,0x3c,0x00,0xff")
    add("single_33", single(33), f, DIV=33, DRIVING=1, ALPHA="0xa5,0x3c,0xff,0")
    add("single_868", single(868), f, DIV=868, DRIVING=1, ALPHA="0xa5,0xff")
    add("multi4_16", multi(16, 4), ["accepted during a frame"], DIV=16, BYTES=4, ALPHA="0x01020384,0xa53cff00")
    add("multi7_2", multi(2, 7), ["accepted during a frame"], DIV=2, BYTES=7, ALPHA="0x01020384a53cffull,0x8055663cff0001ull")
    add("bus_1", bus(1), ["accepted during a frame"], DIV=1, BUS=1, ALPHA="0xa5,0x3c,0x00,0xff")
    add("bus_12", bus(12), ["accepted during a frame"], DIV=12, BUS=1, ALPHA="0xa5,0x00")
    add("multi2_1", multi(1, 2), ["accepted during a frame"], DIV=1, BYTES=2, ALPHA="0x0102,0xa53c,0xff00,0x8001")
    if tier == "thorough":
        add("single_104", single(104), f, DIV=104, DRIVING=1)
        add("single_7f", single(7), f, DIV=7, DRIVING=1, FREE=1, ALPHA="0xa5,0x3c,0x5a")
        add("multi4_2", multi(2, 4), ["accepted during a frame"], DIV=2, BYTES=4, FREE=1, ALPHA=",".join(str(1 << i) for i in range(32)))
        add("multi5_10", multi(10, 5 - 1), ["accepted during a frame"], DIV=10, BYTES=4, ALPHA="0x01020384,0xa53cff00,0x5566aabb,0xffffffff,0")
    return out

"""I2SReceiver: a CODEC-side generator of slots (all bits, all start-up alignments) against the delivered stream words."""
from mc.runner import Cfg
from mc.i2sclk import CPP as CLK

ASSUMPTIONS = ["bit-clock phases of at least HALF system clocks (the documented >= 10x oversampling); data and word clock change within one cycle of the falling edge",
               "slots are at least sample_width bit clocks long", "reception starts with a left slot, once the right channel has been seen while enabled",
               "a slot that ends while the reported buffer level is at the depth for the whole write window is dropped; in windows where it is so only partly, either is accepted",
               "disabling happens in mid-slot and loses at most the slot in progress"]

CPP = CLK + r"""
#define NQ (DEPTH+5)
#define SM ((u32)((1ull<<W)-1))
#define WIN ((2*HALF+2*JIT)*(L-W+2)+8)           // a slot is written at the latest this many cycles after its last bit (plus buffer latency)
struct Mon { Clk c; u32 q[NQ]; u8 fl[NQ]; u8 n; u16 hage, wage; u8 open, sawfull, sawroom; u8 en, armed, active, nxt, bit, col, cbit, chn, disn, cnt; u32 val; u8 pdel; u8 warm; u8 pv; u32 pp; u8 lv, ls, slow; };
static int init(D& d, Mon& m, Ch& ch){
  int left=LEFT_LEVEL, chn=ch(2), pos=FIXS? 0 : ch(L); COVERIF(chn==left && pos,"start within a left slot");
  clk_init(m.c, chn, pos); m.en=1; m.warm=4; m.bit=W; m.pdel=0; return OK_;
}
static void rm(Mon& m, int i){ for(;i+1<m.n;i++){ m.q[i]=m.q[i+1]; m.fl[i]=m.fl[i+1]; } m.n--; m.q[m.n]=0; m.fl[m.n]=0; }
static void close_win(Mon& m){   // the newest slot has been written or dropped by now
  if(!m.open) return; int i=m.n-1;
  if(m.open==2){ if(m.sawfull){ if(!m.sawroom){ rm(m,i); COVER("dropped"); } else m.fl[i]|=4; } }
  m.open=0; m.sawfull=m.sawroom=0; m.wage=0;
}
static int step(D& d, Mon& m, Ch& ch){
  int ev=0; int left=LEFT_LEVEL;
  if(m.warm) m.warm--; else {
    int oc=m.c.ch; ev=clk_step(m.c, ch);
    if(m.c.ch!=oc){
      if(m.active || (m.en && m.armed && m.c.ch==left)) m.active=1;
      m.armed=0; m.nxt=1;
    }
  }
  bool isl=m.c.ch==left;
  if(EN && ev==1){
    if(m.en && m.active && m.c.pos>=(STD?2:1) && m.col && !m.pdel && m.disn<EN && ch(2)){ m.en=0; m.active=0; m.armed=0; m.nxt=0; m.col=0; m.bit=W; m.val=0; m.disn++; COVER("disabled"); }
    else if(!m.en && ch(2)){ m.en=1; COVER("enabled again"); }
  }
  if(ev==1 && m.en && !isl) m.armed=1;
  // data: driven at falls; STANDARD: one bit after the word clock
  if(ev==2){
    if(STD ? m.nxt==2 : m.nxt==1){ m.nxt=0; m.bit=0; m.val=0; m.col=m.active; m.chn=isl; if(STD) m.chn = isl; }
    else if(m.nxt==1) m.nxt=2;
    if(m.bit<W){
      if(OVF) m.cbit= m.col ? (OV(m.cnt)>>(W-1-m.bit))&1 : 1;
      else m.cbit= m.col? ch(2) : 1;
      m.bit++; m.val=(m.val<<1|m.cbit)&SM;
      if(m.bit==W) m.pdel=m.col?1:0;
    } else m.cbit = PAD;
  }
  if(STD && ev==1 && m.nxt==1){}           // nothing: the bit sampled here belongs to the previous slot
  if(ev==1 && m.pdel){                      // last bit sampled: the slot is complete
    m.pdel=0; close_win(m);
    CHECK(m.n<NQ,"harness queue too short");
    m.q[m.n]=m.val; m.fl[m.n]=m.chn?1:2; if(!m.n) m.hage=0; m.n++; m.open=2; m.wage=0; m.val=0; m.col=0; COVER("slot");
    if(OVF){ m.cnt=(m.cnt+1)%PER; }
  }
  d.word_select_in=m.c.ws; d.serial_clock_in=m.c.clk; d.enable_in=m.en;
  d.serial_data_in= m.cbit;
  bool force = !OVF && m.n>=DEPTH-1;
  if(SLOW && ev==1 && m.c.pos==L/2 && (DEPTH<8 || m.cnt==0 || m.cnt==7)) m.slow=ch(2);
  d.stream_out__ready = force ? 1 : SLOW ? m.slow : ch(2);
  d.comb();
  bool amb=m.open||m.pdel; for(int i=0;i<m.n;i++) if(m.fl[i]&4) amb=true;
  if(m.n!=m.lv || amb){ m.lv=m.n; m.ls=0; } else if(m.ls<3) m.ls++;
  if(m.ls==3) CHECK(d.fifo_level_out==m.n,"fifo_level_out is %d with %d words buffered",(int)d.fifo_level_out,m.n);
  if(m.open==2){ if(d.fifo_level_out>=DEPTH) m.sawfull=1; else m.sawroom=1; }
  if(d.stream_out__valid){
    int i=0; bool ok=false;
    u32 v=d.stream_out__payload; int f=(d.stream_out__first?1:0)|(d.stream_out__last?2:0);
    for(i=0;i<m.n;i++){ if(m.q[i]==v && (m.fl[i]&3)==f){ ok=true; break; } if(!(m.fl[i]&4) && !(i==m.n-1 && m.open)) break; }
    CHECK(m.n,"stream word %x although nothing (more) was received",v);
    CHECK(ok,"stream word %x first=%d last=%d, expected %x %s",v,f&1,f>>1,m.q[0],(m.fl[0]&1)?"first":"last");
    if(m.pv) CHECK(m.pp==v,"stream word changed while waiting");
    if(d.stream_out__ready){ while(i-->=0){ if(m.n==1 && m.open){ m.open=0; m.sawfull=m.sawroom=0; m.wage=0; } rm(m,0); m.hage=0; } COVERIF(f==1,"left word"); COVERIF(f==2,"right word"); m.pv=0; m.pp=0; }
    else { m.pv=1; m.pp=v; m.hage=0; COVER("back pressure"); }
  } else {
    CHECK(!m.pv,"stream word withdrawn");
    CHECK(!d.stream_out__first && !d.stream_out__last,"flags without valid");
    if(m.n){ if(m.hage<60000) m.hage++; if(!(m.fl[0]&4) && !(m.n==1&&m.open&&m.sawfull)) CHECK(m.hage<=WIN+6,"received slot %x is not delivered",m.q[0]); else if(m.hage>WIN+10){ if(m.n==1){ m.open=0; m.sawfull=m.sawroom=0; m.wage=0; } rm(m,0); m.hage=0; } }
  }
  if(!m.n) m.hage=0;
  if(m.open){ if(++m.wage>WIN) close_win(m); }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.io.i2s import I2SReceiver, I2S_FORMAT

    def mk(w, std, depth):
        def build():
            t = I2SReceiver(sample_width=w, frame_format=I2S_FORMAT.STANDARD if std else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=depth)
            s = t.stream_out
            ins = {"enable_in": t.enable_in, "word_select_in": t.word_select_in, "serial_clock_in": t.serial_clock_in,
                   "serial_data_in": t.serial_data_in, "stream_out__ready": s.ready}
            outs = {"stream_out__valid": s.valid, "stream_out__payload": s.payload, "stream_out__first": s.first, "stream_out__last": s.last,
                    "fifo_level_out": t.fifo_level_out}
            return t, ins, outs
        return build
    out = []

    def add(name, w, l, std=True, depth=3, cov=(), **kw):
        c = dict({"HALF": 6, "JIT": 0, "SKEW": 0, "OVF": 0, "EN": 0, "PAD": 1, "PER": 8, "SLOW": 0, "FIXS": 0, "OV(c)": "(c)" if w < 8 else "(((c)+1)*0x9E3779B1u)"}, W=w, L=l, STD=int(std), DEPTH=depth, **kw)
        out.append(Cfg(name, mk(w, std, depth), CPP, c, covers=["slot", "left word", "right word"] + ([] if kw.get("FIXS") else ["start within a left slot"]) + list(cov),
                       ntraces=4, max_states=30_000_000, cost=2))
    for std in (True, False):
        f = "std" if std else "lj"
        add(f"{f}_w2_l2", 2, 2, std)
        add(f"{f}_w2_l3", 2, 3, std, SKEW=-1, PAD=0)
        add(f"{f}_w3_l5", 3, 5, std, SKEW=1)
        add(f"{f}_w3_l5_enable", 3, 5, std, EN=1, cov=["disabled", "enabled again"])
        add(f"{f}_w3_l4_overflow", 3, 4, std, OVF=1, cov=["dropped", "back pressure"], depth=2)
        add(f"{f}_w2_l3_jitter", 2, 3, std, JIT=1, depth=4)
        add(f"{f}_w24_l24", 24, 24, std, OVF=1, depth=2, cov=["back pressure"], PER=7)
    add("std_w32_l32", 32, 32, OVF=1, depth=2, PER=7)
    add("lj_w16_l20", 16, 20, False, OVF=1, depth=2, PER=3)
    add("std_w16_l16_d16", 16, 16, OVF=1, depth=16, SLOW=1, FIXS=1, cov=["dropped", "back pressure"], PER=19)
    add("lj_w24_l32_d5", 24, 32, False, OVF=1, depth=5, SLOW=1, cov=["dropped", "back pressure"], PER=7)
    add("lj_w1_l2", 1, 2, False)
    add("std_w2_l2_d1", 2, 2, depth=1, OVF=1)
    if tier == "thorough":
        for std in (True, False):
            f = "std" if std else "lj"
            add(f"t_{f}_w6_l7", 6, 7, std, depth=4)
            add(f"t_{f}_w4_l4_jitter", 4, 4, std, JIT=1, depth=5)
            add(f"t_{f}_w4_l6_enable", 4, 6, std, EN=2, cov=["disabled", "enabled again"], SKEW=-1, JIT=1)
            add(f"t_{f}_w4_l5_overflow", 4, 5, std, OVF=1, cov=["dropped", "back pressure"], depth=4)
    return out

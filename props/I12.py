"""I2STransmitter: an independent CODEC-side decoder against the queue of accepted samples."""
from mc.runner import Cfg
from mc.i2sclk import CPP as CLK

ASSUMPTIONS = ["bit-clock phases of at least HALF system clocks (the documented >= 10x oversampling); word clock changes within one cycle of the falling edge",
               "slots are at least sample_width bit clocks long", "transmission starts with a left slot, once the right channel has been seen while enabled",
               "a slot for which underflow or mismatch is strobed carries zero", "disabling happens in mid-slot and loses at most the sample in progress"]

CPP = CLK + r"""
#define NQ (DEPTH+4)
#define SM ((u32)((1ull<<W)-1))
struct Mon { Clk c; u64 q[NQ]; u8 n, hage; u8 nf; u8 en, armed, active; u8 bit, col, dec; u32 val, exp; u8 nxt; u8 psdo; u8 disn; u8 v, first; u32 data; u8 warm, lv, ls, sq, burst; };
static int init(D& d, Mon& m, Ch& ch){
  int left=LEFT_LEVEL, chn, pos=0;
  if(PARTIAL){ chn=ch(2); pos=ch(L); COVERIF(chn==left && pos,"start within a left slot"); } else { chn=!left; pos=L-1; }
  clk_init(m.c, chn, pos); m.en=1; m.col=0; m.nf=1; m.nxt=0; m.warm=4; m.bit=99; return OK_;
}
static int begin_slot(D&d, Mon& m){      // the word clock has just changed
  int left=LEFT_LEVEL; bool isl=m.c.ch==left;
  if(m.active || (m.en && m.armed && isl)) { m.active=1; }
  m.armed=0; m.dec=0; m.nxt=1;
  return OK_;
}
static int step(D& d, Mon& m, Ch& ch){
  int ev=0; int left=LEFT_LEVEL;
  if(m.warm) m.warm--; else { int oc=m.c.ch; ev=clk_step(m.c, ch); if(m.c.ch!=oc) RUN(begin_slot(d,m)); }
  bool isl=m.c.ch==left;
  // enable
  if(EN && ev==1){
    if(m.en && m.c.pos>=1 && m.active && m.disn<EN && !(STD && m.c.pos<1) && ch(2)){ m.en=0; m.active=0; m.armed=0; m.col=0; m.bit=99; m.disn++; m.nxt=0; m.val=m.exp=0; COVER("disabled"); }
    else if(!m.en && ch(2)){ m.en=1; COVER("enabled again"); }
  }
  if(ev==1 && m.en && !isl) m.armed=1;
  // producer
  if(SEQ && ev==1 && m.c.pos==0) m.burst=ch(2);
  if(!m.v){ if(m.n<NQ-1 && (SEQ? m.burst : ch(2))){ m.v=1; m.data= DATA(ch); if(SEQ) m.sq=(m.sq+1)%SEQ; m.first = ADV? ch(2) : m.nf; } }
  d.stream_in__valid=m.v; d.stream_in__payload=m.v? m.data : (~m.data)&SM; d.stream_in__first= m.v? m.first : 0; d.stream_in__last= m.v? !m.first:0;
  d.enable_in=m.en; d.word_select_in=m.c.ws; d.serial_clock_in=m.c.clk;
  d.comb();
  if(m.n!=m.lv || m.nxt){ m.lv=m.n; m.ls=0; } else if(m.ls<3) m.ls++;
  if(m.ls==3) CHECK(d.fifo_level_out==m.n,"fifo_level_out is %d with %d samples buffered",(int)d.fifo_level_out,m.n);
  // line may change only in the low phase of the bit clock, at least one cycle before the next rise
  if(d.serial_data_out!=m.psdo){ CHECK(m.c.clk==0 && m.c.ph>=1,"data changes away from the falling edge"); m.psdo=d.serial_data_out; }
  // reports
  int rep=d.underflow_out+d.mismatch_out;
  CHECK(rep<=1,"underflow and mismatch");
  if(rep && m.active){
    CHECK(!m.dec && m.nxt,"a second underflow/mismatch report in one slot, or a report in mid-slot");
    m.dec= d.underflow_out?1:2;
    if(m.dec==1){ CHECK(m.n==0 || m.hage<=4,"underflow reported although a sample is waiting"); COVER("underflow"); }
    if(m.dec==2){ CHECK(m.n && ((m.q[0]>>W)&1)!=isl,"mismatch reported although the next sample belongs to this channel"); COVER("mismatch"); }
  }
  // sampling
  if(ev==1){
    if(m.bit<W && m.col){
      m.val=(m.val<<1|d.serial_data_out)&SM; m.bit++;
      if(m.bit==W){
        CHECK(m.val==m.exp,"slot of the %s channel carries %x, expected %x", (STD && m.c.pos==0? !isl:isl)?"left":"right", m.val, m.exp);
        COVER("slot"); m.bit=99; m.val=m.exp=0; m.col=0;
      }
    } else if(m.col==0 && m.active && !m.nxt) {}
    if(m.nxt && STD){ goto begin; }
  }
  if(!STD && m.nxt && m.c.clk==0 && m.c.ph==HALF-1) { begin:
      m.nxt=0;
      if(m.active){
        CHECK(m.bit>=W || !m.col,"slot too short");
        m.bit=0; m.val=0; m.col=1;
        // decided in this phase; the decision strobe may still come (handled below)
        m.nxt=2;
      } else m.bit=99;
  }
  if(m.nxt==2 && m.active && (STD ? (m.c.clk==1 && m.c.ph==HALF-1) : (m.c.clk==0 && m.c.ph==HALF-1))){   // decision must have been made
    m.nxt=0;
    if(m.dec==0){
      CHECK(m.n,"no sample, but neither underflow nor a valid slot");
      CHECK(((m.q[0]>>W)&1)==isl,"next sample belongs to the other channel but no mismatch was reported");
      m.exp=m.q[0]&SM; for(int i=0;i+1<NQ;i++) m.q[i]=m.q[i+1]; m.q[NQ-1]=0; m.n--; m.hage=0; COVER("sample sent");
    } else m.exp=0;
    m.dec=0;
  }
  if(m.hage<10 && m.n) m.hage++;
  if(m.v && d.stream_in__ready){ CHECK(m.n<NQ,"more samples accepted than the buffer holds"); m.q[m.n]=m.data|(u64)m.first<<W; if(!m.n) m.hage=0; m.n++; m.v=0; m.nf=!m.first; m.data=0; m.first=0; COVERIF(m.n>=DEPTH,"buffer full"); }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.io.i2s import I2STransmitter, I2S_FORMAT

    def mk(w, std, depth):
        def build():
            t = I2STransmitter(sample_width=w, frame_format=I2S_FORMAT.STANDARD if std else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=depth)
            s = t.stream_in
            ins = {"enable_in": t.enable_in, "word_select_in": t.word_select_in, "serial_clock_in": t.serial_clock_in,
                   "stream_in__valid": s.valid, "stream_in__payload": s.payload, "stream_in__first": s.first, "stream_in__last": s.last}
            outs = {"stream_in__ready": s.ready, "serial_data_out": t.serial_data_out, "underflow_out": t.underflow_out,
                    "mismatch_out": t.mismatch_out, "fifo_level_out": t.fifo_level_out}
            return t, ins, outs
        return build
    out = []

    def add(name, w, l, std=True, depth=2, cov=(), **kw):
        c = dict({"HALF": 6, "JIT": 0, "SKEW": 0, "ADV": 0, "EN": 0, "PARTIAL": 0, "SEQ": 0, "DATA(ch)": f"ch({1 << w})"}, W=w, L=l, STD=int(std), DEPTH=depth, **kw)
        out.append(Cfg(name, mk(w, std, depth), CPP, c, covers=["slot", "sample sent", "underflow"] + list(cov), ntraces=4, max_states=30_000_000, cost=2))
    for std in (True, False):
        f = "std" if std else "lj"
        add(f"{f}_w2_l2", 2, 2, std)
        add(f"{f}_w2_l3", 2, 3, std, cov=["mismatch"], ADV=1)
        add(f"{f}_w3_l5_partial", 3, 5, std, cov=["start within a left slot"], PARTIAL=1)
        add(f"{f}_w2_l3_skew-", 2, 3, std, SKEW=-1)
        add(f"{f}_w2_l2_skew+", 2, 2, std, SKEW=1, ADV=1, depth=1)
        add(f"{f}_w2_l4_enable", 2, 4, std, cov=["disabled", "enabled again"], EN=1, depth=1)
        add(f"{f}_w2_l3_jitter", 2, 3, std, JIT=1, depth=1)
    add("std_w17_l17", 17, 17, **{"DATA(ch)": "(0x1A5C3 ^ (ch(2)? 0x1FFFF : 0))"})
    add("std_w24_l32", 24, 32, depth=1, **{"DATA(ch)": "(0xA5C31F ^ (ch(2)? 0xFFFFFF : 0))"})
    add("std_w32_l32", 32, 32, depth=1, **{"DATA(ch)": "(0x5AC3E187u ^ (ch(2)? 0xFFFFFFFFu : 0))"})
    seq = {"SEQ": 21, "DATA(ch)": "((m.sq+1)*0x9E3779B1u>>3)&SM"}
    add("std_w16_l16_d16", 16, 16, depth=16, cov=["buffer full"], **seq)
    add("lj_w16_l24_d16", 16, 24, False, depth=16, cov=["buffer full"], **seq)
    add("lj_w20_l20_d5", 20, 20, False, depth=5, cov=["buffer full"], **seq)
    add("std_w24_l25_d7", 24, 25, depth=7, cov=["buffer full"], **seq)
    add("std_w1_l1_d3", 1, 1, depth=3, HALF=6)
    if tier == "thorough":
        for std in (True, False):
            f = "std" if std else "lj"
            add(f"t_{f}_w3_l4_d3", 3, 4, std, depth=3, cov=["mismatch"], HALF=5, **{"DATA(ch)": "(ch(2) ? 5 : 2)"})
            add(f"t_{f}_w4_l4_partial", 4, 4, std, depth=2, PARTIAL=1, **{"DATA(ch)": "(ch(2) ? 0xb : 0x4)"})
            add(f"t_{f}_w3_l6_enable", 3, 6, std, cov=["disabled", "enabled again"], EN=2, depth=2, PARTIAL=1, SKEW=1)
        add("t_lj_w24_l32", 24, 32, False, depth=2, **{"DATA(ch)": "(0xA5C31F ^ (ch(2)? 0xFFFFFF : 0))"})
    return out

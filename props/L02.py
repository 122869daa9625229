"""StreamILA: every capture/trigger/ready schedule (and clock interleaving in the cross-domain case) against a queue of recorded samples."""
from mc.runner import Cfg

ASSUMPTIONS = ["the pre-trigger history must have been filled once before the first trigger",
               "a trigger is certainly accepted when the stream has been idle for a few cycles; one given while the last words drain may be accepted or ignored",
               "cross-domain: each clock ticks at least once in every 3 steps"]

CPP = r"""
#define QN (CAPS*DEPTH)
struct Mon { VT hv[PRE+1]; u8 he[PRE+1]; u8 cap, pend, warm, caps; CT n; VT q[QN]; CT qn, rd; VT buf[DEPTH]; u8 age, idle, hold; u64 hp; u8 hf, hl; u8 s0, s1, seen; };
static int init(D& d, Mon& m, Ch& ch){ m.idle=6; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int mask = 3;
  if(CROSS){ if(INTER){ mask=1+ch(3); if(m.s0>=2 && !(mask&1)) mask|=1; if(m.s1>=2 && !(mask&2)) mask|=2; } }
  bool ts = mask&1, to = CROSS? (mask&2) : ts;
  bool en=true, trig=false; VT v=0; bool rdy=false;
  if(ts){
    bool warm=m.warm>=PRE+4;
    if(WITHEN && warm && (m.cap||m.pend)) en = ch(2);
    if(warm){
      if(m.cap || m.pend) trig = XTRIG? ch(2):0;
      else if(m.caps<CAPS) trig = (m.qn==0 || EARLY)? ch(2) : 0;
    }
    if(FREE){ if(m.cap || m.pend || trig || (warm && m.caps<CAPS && PRE)) v=ch(NV); } else v = WIDE ? ((m.n*5+3*m.caps+1)*0x9E3779B97F4A7C15ull>>7)&WMASK : (m.n*5+3*m.caps+1)%NV;
  }
  if(to) rdy = FULLRDY ? (m.rd&RDYPAT)!=0 || m.qn==0 : ch(2);
  SETSIG d.trigger=trig;
#if WITHEN
  d.enable=en;
#endif
  d.ready=rdy;
  d.comb();
  // resolve a trigger whose acceptance was not predetermined
  if(ts && m.pend){
    if(m.pend==2) CHECK(d.capturing,"trigger of an idle analyzer not accepted");
    if(d.capturing){ m.cap=1; m.n=0; m.caps++; }
    m.pend=0;
  }
  if(ts){
    bool smp = m.cap && m.he[PRE];
    CHECK(d.capturing==m.cap,"capturing is %d, expected %d",(int)d.capturing,m.cap);
    CHECK(d.sampling==(smp?1:0),"sampling is %d, expected %d",(int)d.sampling,(int)smp);
    if(smp){ m.buf[m.n++]=m.hv[PRE]; if(m.n==DEPTH){ for(int i=0;i<DEPTH;i++) m.q[m.qn++]=m.buf[i]; memset(m.buf,0,sizeof m.buf); m.cap=0; m.n=0; m.age=0; } }
    else if(!m.cap && trig){ m.pend = (m.qn==0 && m.idle>=6)? 2 : 1; COVERIF(m.caps,"second trigger"); }
  }
  if(to){
    if(m.hold) CHECK(d.valid && d.payload==m.hp && (d.first!=0)==m.hf && (d.last!=0)==m.hl,"word changed or withdrawn before it was accepted");
    m.hold=0;
    if(d.valid){
      CHECK(m.qn>0 && !(m.qn==DEPTH && m.cap && !CROSS),"word offered although no capture is pending");
      CHECK(d.payload==m.q[0],"word %d is %llx, recorded %llx",m.rd,(unsigned long long)d.payload,(unsigned long long)m.q[0]);
      CHECK((d.first!=0)==(m.rd==0),"first is %d on word %d",(int)d.first,m.rd);
      CHECK((d.last!=0)==(m.rd==DEPTH-1),"last is %d on word %d of %d",(int)d.last,m.rd,DEPTH);
      COVERIF(d.last,"last");
      if(rdy){ for(int i=0;i+1<m.qn;i++) m.q[i]=m.q[i+1]; m.q[--m.qn]=0; if(++m.rd==DEPTH){ m.rd=0; COVERIF(m.caps==2,"second capture"); } m.age=0; m.hp=m.hf=m.hl=0; }
      else { COVER("stall"); m.hold=1; m.hp=d.payload; m.hf=d.first; m.hl=d.last; }
    } else { m.hp=m.hf=m.hl=0; if(m.qn){ COVERIF(rdy,"ready before valid"); } }
  }
  if(ts){
    if(m.qn && !d.valid) CHECK(++m.age<30,"recorded sample %d is never offered",m.rd); else m.age=0;
    if(m.qn==0 && !m.cap && !m.pend){ if(m.idle<6) m.idle++; } else m.idle=0;
    for(int i=PRE;i>0;i--){ m.hv[i]=m.hv[i-1]; m.he[i]=m.he[i-1]; }
    m.hv[0]=v; m.he[0]=en;
    if(m.warm<PRE+4) m.warm++;
  }
  if(CROSS && INTER){ m.s0 = ts?0:m.s0+1; m.s1 = (mask&2)?0:m.s1+1; }
  tick(d,mask);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Signal, signed
    from amlib.debug.ila import StreamILA

    def mk(w, depth, pre, en, o, dom):
        def build():
            sg = [Signal(x, name=f"s{i}") for i, x in enumerate(w if isinstance(w, tuple) else (w,))]
            t = StreamILA(signals=sg, sample_depth=depth, samples_pretrigger=pre, with_enable=en, domain=dom, **({"o_domain": o} if o else {}))
            ins = dict({s.name: s for s in sg}, trigger=t.trigger, ready=t.stream.ready)
            if en:
                ins["enable"] = t.enable
            outs = {n: getattr(t, n) for n in ["capturing", "sampling"]}
            outs.update({n: getattr(t.stream, n) for n in ["valid", "payload", "first", "last"]})
            return t, ins, outs
        return build
    out = []

    def add(name, w, depth, pre, en=False, o=None, free=1, caps=2, xtrig=1, early=1, inter=1, fullrdy=0, rdypat=255, max_states=20_000_000, dom="sync"):
        pos, setsig = 0, ""
        for i, s in enumerate(w if isinstance(w, tuple) else (w,)):
            k = s if isinstance(s, int) else s.width
            setsig += f"d.s{i}=(v>>{pos})&{(1 << k) - 1}ull; "
            pos += k
        out.append(Cfg(name, mk(w, depth, pre, en, o, dom), CPP,
                       {"PRE": pre, "DEPTH": depth, "WITHEN": int(en), "NV": 1 << pos if pos < 8 else 0, "WIDE": int(pos > 7), "WMASK": f"{(1 << pos) - 1}ull", "VT": "u64" if pos > 16 else "u16" if pos > 7 else "u8", "CT": "u16" if depth > 100 else "u8", "SETSIG": setsig, "CROSS": int(bool(o)), "FREE": free, "CAPS": caps, "XTRIG": xtrig,
                        "EARLY": early, "INTER": inter, "FULLRDY": fullrdy, "RDYPAT": rdypat},
                       domains=(dom,) + ((o,) if o else ()), covers=["last", "stall", "second trigger", "second capture"],
                       ntraces=3, max_states=max_states, cost=2 if o else 1))
    add("d4_p0", 1, 4, 0)
    add("d3_p1", 1, 3, 1)
    add("d5_p2_w3", 3, 5, 2, free=0)
    add("d1_p1", 2, 1, 1)
    add("d3_p0_en", 1, 3, 0, en=True, caps=2)
    add("x_d3_p1", 3, 3, 1, o="out", free=0, xtrig=0)
    add("x_d20_p0", 5, 20, 0, o="out", free=0, xtrig=0, inter=0, early=0)
    add("x_d3_p2_xtrig", 1, 3, 2, o="out")
    add("x_d18_inter", 5, 18, 1, o="out", free=0, xtrig=0)
    add("fast_d4_p3", 1, 4, 3, dom="fast")
    add("fast_x_d2_p1_en", 1, 2, 1, en=True, dom="fast", o="out")
    add("fast_to_sync_d2", 1, 2, 0, dom="fast", o="sync")
    add("d8_p0_3caps", 1, 8, 0, caps=3)
    add("d6_p2_en", 1, 6, 2, en=True)
    add("d32_p1_5sig", (1, 7, signed(9), 2, 1), 32, 1, free=0)
    add("d5_p0_w33", (33,), 5, 0, free=0)
    add("d4_p3_w16", (8, 8), 4, 3, free=0)
    add("d9_p0_w60_en", (30, 30), 9, 0, en=True, free=0)
    add("x_d32_p1_w17", (16, 1), 32, 1, o="out", free=0, xtrig=0, inter=0, early=0)
    add("x_d3_p1_w40", (3, 37), 3, 1, o="out", free=0, xtrig=0)
    add("d300_p1_w9", (9,), 300, 1, free=0, xtrig=0, early=0)
    add("d40_p20_w9", (9,), 40, 20, free=0, xtrig=0, early=0)
    add("x_d40_p17_w9", (9,), 40, 17, o="out", free=0, xtrig=0, inter=0, early=0)
    add("x_d4_p2_3sig_en", (2, signed(3), 6), 4, 2, en=True, o="out", free=0, xtrig=0)
    add("fast_to_sync_d3_p3_5sig", (1, 7, signed(9), 2, 1), 3, 3, o="sync", dom="fast", free=0)
    if tier == "thorough":
        add("t_d12_p1", 1, 12, 1)
        add("t_d8_p2_en", 1, 8, 2, en=True, caps=2)
        add("t_d6_p1_w2", 2, 6, 1)
        add("t_d17_p2_w5", 5, 17, 2, free=0, caps=3)
        add("t_d33", 6, 33, 0, free=0, caps=3)
        add("t_x_d4_p1_3caps", 1, 4, 1, o="out", caps=3)
        add("t_x_d21_inter", 5, 21, 0, o="out", free=0, xtrig=0, caps=2)
        add("t_x_d40", 6, 40, 1, o="out", free=0, xtrig=0, inter=0, caps=3)
        add("t_x_d4_p2_en", 1, 4, 2, en=True, o="out", caps=2)
    return out

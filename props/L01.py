"""IntegratedLogicAnalyzer: every input/enable/trigger/readout history at small widths and depths against a recording of the cycles."""
from mc.runner import Cfg

ASSUMPTIONS = ["the pre-trigger history must have been filled once (enable high for the first pretrigger+4 cycles after reset) before the first trigger",
               "pre-trigger length counts clock cycles; among the cycles from there on exactly those with enable high are samples",
               "a sample number is presented for one cycle and its value observed in the next"]

CPP = r"""
struct Mon { VT hv[PRE+1]; u8 he[PRE+1]; u8 cap, complete; CT n; VT mem[DEPTH]; u8 t; u8 warm; u8 rv; CT ra, gap; u8 caps; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int en = WITHEN ? ((m.warm<PRE+4)?1:ch(2)) : 1;
  VT v = SEQ ? SEQV(m.t) : ch(NV); if(SEQ) m.t=(m.t+1)%SEQ;
  if(SPARSE && !SEQ && !en) v=0;
  int trig = (m.warm<PRE+4)?0: (m.cap||m.caps<CAPS||CAPS==0) ? ch(2) : 0;
  int a = RD ? (m.complete? ch(DEPTH):0) : (m.complete? m.gap%DEPTH : 0);
  SETSIG
  d.trigger=trig;
#if WITHEN
  d.enable=en;
#endif
  d.captured_sample_number=a;
  d.comb();
  if(m.rv) CHECK(d.captured_sample==m.mem[m.ra],"sample %d reads back as %llx, recorded %llx",m.ra,(unsigned long long)d.captured_sample,(unsigned long long)m.mem[m.ra]);
  bool smp = m.cap && m.he[PRE];
  CHECK(d.capturing==(m.cap?1:0),"capturing is %d, expected %d (%d of %d samples taken)",(int)d.capturing,m.cap,m.n,DEPTH);
  CHECK(d.sampling==(smp?1:0),"sampling is %d, expected %d",(int)d.sampling,(int)smp);
  CHECK(d.complete==m.complete,"complete is %d, expected %d",(int)d.complete,m.complete);
  COVERIF(trig && m.cap,"trigger while capturing"); COVERIF(trig && m.complete,"second trigger"); COVERIF(m.cap && !m.he[PRE],"disabled cycle");
  m.rv = m.complete; m.ra=a; if(!m.rv) m.ra=0;
  if(m.complete) m.gap=(m.gap+1)%DEPTH; else m.gap=0;
  if(m.cap){
    if(smp){ m.mem[m.n++]=m.hv[PRE]; if(m.n==DEPTH){ m.cap=0; m.n=0; m.complete=1; COVER("complete"); } }
  } else if(trig){ m.cap=1; m.n=0; m.complete=0; m.rv=0; m.ra=0; m.gap=0; memset(m.mem,0,sizeof m.mem); if(CAPS) m.caps++; }
  for(int i=PRE;i>0;i--){ m.hv[i]=m.hv[i-1]; m.he[i]=m.he[i-1]; }
  m.hv[0]=v; m.he[0]=en;
  if(m.warm<PRE+4) m.warm++;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Signal, signed
    from amlib.debug.ila import IntegratedLogicAnalyzer

    def mk(shapes, depth, pre, en, domain, wide):
        def build():
            sig = [Signal(s, name=f"s{i}") for i, s in enumerate(shapes)]
            t = IntegratedLogicAnalyzer(signals=sig, sample_depth=depth, samples_pretrigger=pre, with_enable=en, domain=domain)
            ins = {f"s{i}": s for i, s in enumerate(sig)}
            ins.update(trigger=t.trigger, captured_sample_number=t.captured_sample_number)
            if en:
                ins["enable"] = t.enable
            return t, ins, {n: getattr(t, n) for n in ["capturing", "sampling", "complete", "captured_sample"]}
        return build
    out = []

    def add(name, depth, pre, en, shapes=(1,), rd=1, domain="sync", sparse=1, caps=0, seq=0):
        w = sum(s if isinstance(s, int) else s.width for s in shapes)
        pos, setsig = 0, ""
        for i, s in enumerate(shapes):
            k = s if isinstance(s, int) else s.width
            setsig += f"d.s{i}=(v>>{pos})&{(1 << k) - 1}ull; "
            pos += k
        out.append(Cfg(name, mk(shapes, depth, pre, en, domain, w), CPP,
                       {"PRE": pre, "DEPTH": depth, "WITHEN": int(en), "NV": 0 if seq else 1 << w, "SETSIG": setsig, "SEQ": seq, "VT": "u64" if seq and w > 16 else "u16" if seq else "u8", "CT": "u16" if depth > 250 else "u8",
                        "SEQV(t)": f"((((t)+1)*0x9E3779B97F4A7C15ull)>>{max(0, 61 - w)}&{(1 << w) - 1}ull)", "RD": rd, "SPARSE": sparse, "CAPS": caps},
                       domains=(domain,), covers=["complete", "trigger while capturing", "second trigger"] + (["disabled cycle"] if en else []),
                       ntraces=3, max_states=20_000_000))
    for pre in (0, 1, 2, 3, 4):
        add(f"d4_p{pre}", 4, pre, False)
        add(f"d3_p{pre}_en", 3, pre, True, rd=0, caps=2)
    add("d4_p0_2sig", 4, 0, False, shapes=(1, signed(2)), rd=0)
    add("d3_p2_2sig", 3, 2, False, shapes=(1, 1), rd=0)
    add("d4_p1_domain", 4, 1, True, domain="fast", rd=0)
    add("d2_p2_domain", 2, 2, True, domain="fast")
    add("d2_p7", 2, 7, False, caps=2, rd=0)
    add("d2_p6_en", 2, 6, True, caps=2, rd=0)
    add("d32_p0_3sig", 32, 0, False, shapes=(1, 5, 10), rd=0, caps=3, seq=37)
    add("d32_p1_w33", 32, 1, False, shapes=(33,), rd=0, caps=2, seq=37)
    add("d33_p1_4sig", 33, 1, False, shapes=(1, 8, signed(7), 1), rd=0, caps=2, seq=41)
    add("d17_p9_w48", 17, 9, False, shapes=(16, 32), rd=0, caps=2, seq=31)
    add("d2_p15_w9", 2, 15, False, shapes=(9,), rd=0, caps=2, seq=19)
    add("d1_p0_w60", 1, 0, False, shapes=(60,), rd=1, seq=7)
    add("d5_p1_en_w20", 5, 1, True, shapes=(2, 18), rd=0, caps=2, seq=5)
    add("d300_p1_w9", 300, 1, False, shapes=(9,), rd=0, caps=2, seq=11)
    add("d24_p40_w9", 24, 40, False, shapes=(9,), rd=0, caps=2, seq=31)
    if tier == "thorough":
        add("t_d600_p0_w9", 600, 0, False, shapes=(9,), rd=0, caps=2, seq=13)
        add("t_d20_p140_w9", 20, 140, False, shapes=(9,), rd=0, caps=2, seq=31)
        for pre in (0, 1, 2, 3, 4, 5, 6):
            add(f"t_d5_p{pre}", 5, pre, False)
            add(f"t_d3_p{pre}_en", 3, pre, True, sparse=1, rd=0, caps=3)
        for pre in (0, 1, 2, 3):
            add(f"t_d6_p{pre}_en", 6, pre, True, rd=0, caps=2)
            if pre < 2:
                add(f"t_d4_p{pre}_3bit", 4, pre, False, shapes=(1, signed(2)), rd=0, caps=2)
            else:
                add(f"t_d3_p{pre}_2bit", 3, pre, False, shapes=(1, 1), rd=0, caps=2)
        add("t_d7_p2", 7, 2, False, rd=0)
        add("t_d8_p1", 8, 1, False, rd=0)
        add("t_d1_p1", 1, 1, True)
        add("t_d2_p1_dataff", 2, 1, True, sparse=0)
    return out

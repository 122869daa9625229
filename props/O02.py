"""InterruptSource: every history of event strobes and of writes to the pending and enable registers, for every combination of trigger modes."""
import itertools
from mc.runner import Cfg

ASSUMPTIONS = ["strobes count as low before the first cycle", "register elements from a stand-in with the same fields as amaranth_soc's csr.Element (not installed here)",
               "the status register shows the strobes of the previous cycle"]

CPP = r"""
static const int MODE[]={TMODE};     // 0 level, 1 rise, 2 fall
static const int ACT[]={TACT};      // the bits that vary (all of them where few)
#define NACT ((int)(sizeof ACT/sizeof*ACT))
static u64 spread(u32 x){ u64 r=0; for(int i=0;i<NACT;i++) if(x>>i&1) r|=1ull<<ACT[i]; return r; }
struct Mon { u64 prev, pend, en; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  u64 s=spread(ch(1<<NACT)); int k=ch(4), lv=ch(2);
  u64 all=(1ull<<N)-1, rest=all&~spread(~0u), pw=lv?all:0, ew=lv?all:0;
  if(k&1) pw=spread(ch(1<<NACT)) | (lv?rest:0);
  if(k>>1) ew=spread(ch(1<<NACT)) | (lv?rest:0);
#if N>1
  SETSTB
#else
  d.stb0=s;
#endif
  d.p_stb=k&1; d.p_data=pw; d.e_stb=k>>1; d.e_data=ew;
  d.comb();
  CHECK(d.status==m.prev,"status %llx, strobes were %llx",(unsigned long long)d.status,(unsigned long long)m.prev);
  CHECK(d.pending==m.pend,"pending %llx, expected %llx",(unsigned long long)d.pending,(unsigned long long)m.pend);
  CHECK(d.enable==m.en,"enable %llx, written %llx",(unsigned long long)d.enable,(unsigned long long)m.en);
  CHECK(d.irq==((m.pend&m.en)!=0),"interrupt line %d with pending %llx enable %llx",(int)d.irq,(unsigned long long)m.pend,(unsigned long long)m.en);
  COVERIF(m.pend && !d.irq,"masked event"); COVERIF(d.irq,"irq");
  u64 ev=0;
  for(int i=0;i<N;i++){ u64 a=m.prev>>i&1,b=s>>i&1; if(MODE[i]==0?b:MODE[i]==1?(!a&&b):(a&&!b)) ev|=1ull<<i; }
  u64 cl=(k&1)?pw:0;
  COVERIF(cl&m.pend&ev,"event in the cycle of its clearing write"); COVERIF(cl&m.pend&~ev,"cleared");
  COVERIF(cl&&(m.pend&~cl),"write leaves another bit");
  m.pend=(m.pend&~cl)|ev; if(k>>1) m.en=ew; m.prev=s;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.soc.event import EventSource, InterruptSource
    out = []
    wide = [([(0, 1, 2, 2, 1)[i % 5] for i in range(n)], act) for n, act in
            [(4, (0, 1)), (4, (2, 3)), (5, (0, 4)), (8, (3, 7)), (9, (7, 8)), (9, (0, 8)), (17, (15, 16)), (32, (1, 31)), (33, (0, 32)), (33, (31, 32))]]
    names = ["level", "rise", "fall"]
    combos = [c for n in (1, 2) for c in itertools.product(range(3), repeat=n)] + ([(0, 1, 2), (2, 1, 0), (1, 1, 1)] if tier == "quick" else
                                                                                  list(itertools.product(range(3), repeat=3)) + [(0, 1, 2, 1), (2, 2, 1, 0)])
    for c, act in [(c, tuple(range(len(c)))) for c in combos] + [(tuple(c), a) for c, a in wide]:
        def build(c=c):
            ev = [EventSource(mode=names[x], name=f"e{i}") for i, x in enumerate(c)]
            t = InterruptSource(ev, name="ints")
            ins = {f"stb{i}": e.stb for i, e in enumerate(ev)}
            ins.update(p_stb=t.pending.w_stb, p_data=t.pending.w_data, e_stb=t.enable.w_stb, e_data=t.enable.w_data)
            return t, ins, {"status": t.status.r_data, "pending": t.pending.r_data, "enable": t.enable.r_data, "irq": t.irq}
        n = len(c)
        cov = ["irq", "masked event", "cleared", "event in the cycle of its clearing write"] + (["write leaves another bit"] if n > 1 else [])
        out.append(Cfg("_".join(names[x] for x in c) if len(c) < 5 and len(act) == len(c) else f"n{n}_{act[0]}_{act[1]}", build, CPP.replace("SETSTB", "".join(f"d.stb{i}=s>>{i}&1; " for i in range(n))),
                       {"N": n, "TMODE": ",".join(map(str, c)), "TACT": ",".join(map(str, act))}, covers=cov, ntraces=2, max_states=5_000_000))
    return out

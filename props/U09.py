"""LFSR: gateware sequence == software sequence == tap-parity recurrence, over complete periods."""
import itertools
from mc.runner import Cfg, PyCfg

ASSUMPTIONS = ["tap sets contain the degree itself (otherwise the step is no permutation and need not return to its start)"]

CPP = r"""
struct Mon { u32 pos, v; };
static int init(D& d, Mon& m, Ch& ch){ m.v=RESETV; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  static const u32 seq[]={SEQ};
  d.comb();
  CHECK(d.value==m.v, "register %x, tap parity recurrence gives %x after %d steps", (int)d.value, m.v, m.pos);
  CHECK(d.value==seq[m.pos], "register %x, software generator yields %x after %d steps", (int)d.value, seq[m.pos], m.pos);
  u32 p=0;
  for(int t=0;t<DEG;t++) if((TAPMASK>>t)&1) p^=(m.v>>t)&1;
  m.v=((m.v<<1)|p)&((u32)((1ull<<DEG)-1));
  m.pos=(m.pos+1)%NSEQ;
  COVERIF(m.pos==0,"full period");
#ifdef CUT
  if(m.pos==NSEQ-1){ COVER("full period"); ASSUME(false); }
#endif
  tick(d);
  return OK_;
}
"""


def ref(degree, taps, reset):
    v, out = reset, []
    while True:
        out.append(v)
        v = ((v << 1) | (sum(v >> (t - 1) & 1 for t in taps) & 1)) & ((1 << degree) - 1)
        if v == reset:
            return out


def take(g, n):
    """at most n values; stops after the first one that no register of a sane size holds"""
    out = []
    for v in g:
        out.append(v)
        if len(out) >= n or not 0 <= v < 1 << 32:
            break
    return out


def soft(tier):
    from amlib.utils import LinearFeedbackShiftRegister
    states = n = 0
    viol, samples = {}, []
    for degree in range(1, 9 if tier == "thorough" else 7):
        for k in range(degree):
            for rest in itertools.combinations(range(1, degree), k):
                taps = (degree,) + rest
                for reset in range(1, 1 << degree):
                    states += 1
                    want = ref(degree, taps, reset)
                    g = LinearFeedbackShiftRegister(degree, taps, reset).generate()
                    got = take(g, len(want) + 1)
                    n += len(got)
                    if got != want and "generator" not in viol:
                        viol["generator"] = f"degree {degree} taps {taps} reset {reset}: {got[:20]}..., expected {want[:20]}..."
    # primitive sets visit all non-zero values
    for degree, taps in ((2, (2, 1)), (3, (3, 2)), (4, (4, 3)), (5, (5, 3)), (6, (6, 5)), (7, (7, 6)), (8, (8, 6, 5, 4)),
                         (9, (9, 5)), (10, (10, 7)), (16, (16, 14, 13, 11))):
        states += 1
        g = take(LinearFeedbackShiftRegister(degree, taps).generate(), (1 << degree) + 1)
        n += len(g)
        if sorted(g) != list(range(1, 1 << degree)):
            viol["primitive"] = f"degree {degree} taps {taps}: {len(g)} values, {len(set(g))} distinct"
        samples.append(f"degree {degree} taps {taps}: {g[:5]}...")
    return dict(states=states, transitions=n, samples=samples, violations=list(viol.items()))


def configs(tier):
    from amlib.utils import LinearFeedbackShiftRegister
    out = [PyCfg("generator", soft)]

    def mk(degree, taps, reset):
        def build():
            t = LinearFeedbackShiftRegister(degree, taps) if reset is None else LinearFeedbackShiftRegister(degree, taps, reset)
            return t, {}, {"value": t.value}
        return build
    cfgs = []
    for degree in range(1, 7 if tier == "thorough" else 6):
        for k in range(degree):
            for rest in itertools.combinations(range(1, degree), k):
                for taps in {(degree,) + rest, tuple(sorted(rest)) + (degree,)}:
                    cfgs.append((degree, taps, None if len(cfgs) % 3 else (1 << degree) - 1))
    cfgs += [(8, (8, 6, 5, 4), None), (9, (9, 5), 3), (16, (16, 14, 13, 11), None), (10, (10, 7), 0x155), (12, (12, 6, 4, 1), None), (17, (17, 14), None), (24, (24, 23, 22, 17), 0x800001), (31, (31, 28), None), (32, (32, 22, 2, 1), 0xdeadbeef)]
    for degree, taps, reset in cfgs:
        try:
            s = [v & 0xffffffff for v in take(LinearFeedbackShiftRegister(degree, taps, 1 if reset is None else reset).generate(), 70000)]
        except Exception:
            s = [0]
        out.append(Cfg(f"d{degree}_{'_'.join(map(str, taps))}_{reset}", mk(degree, taps, reset), CPP,
                       {"SEQ": ",".join(f"{x}u" for x in s), "NSEQ": len(s), "DEG": degree, "RESETV": f"{1 if reset is None else reset}u",
                        **({"CUT": 1} if degree > 16 else {}), "TAPMASK": f"{sum(1 << (t - 1) for t in taps)}u"}, covers=["full period"], ntraces=2))
    return out

"""Debouncer at its real 15-bit interval: the complete reachable state space under a completely free input,
plus all sequences of a few level durations (so that a design with more state is still driven across the threshold)."""
from mc.runner import Cfg

ASSUMPTIONS = ["debounce interval 2**15 cycles (+-4) of the input as seen after two synchronizer stages"]

CPP = r"""
struct Mon { u16 left, seg; u8 in; u16 run; u8 s1, s2, st, first; u8 due; };
static int init(D& d, Mon& m, Ch& ch){ m.first=1; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
#ifdef SEG
  // the input holds each level for one of a few durations around the interval and its fractions
  static const int L[6]={INTERVAL+8, INTERVAL-8, INTERVAL/2+16, 3*(INTERVAL/4)+16, INTERVAL/4+16, 40};
  if(m.left==0){ ASSUME(m.seg<SEG); m.left=L[ch(6)]; m.in=!m.in; m.seg++; }
  m.left--;
  int in=m.in;
#else
  int in=ch(2);
#endif
  d.btn_in=in;
  d.comb();
  // the announced change: state changes one cycle after (or together with) its strobe
  if(d.btn_state_out!=m.st){
    CHECK(m.due || d.btn_down_out || d.btn_up_out, "state changed to %d without a strobe", (int)d.btn_state_out);
    CHECK(m.due || m.run>=INTERVAL-4, "state changed after the input differed for only %d cycles", m.run);
    m.st=d.btn_state_out; m.run=0; m.due=0;
    if(m.st) COVER("pressed"); else COVER("released");
  } else CHECK(!m.due, "strobe without a state change");
  if(m.s2!=m.st) m.run++; else { COVERIF(m.run>INTERVAL-10,"long glitch rejected"); m.run=0; }
  CHECK(m.run<=INTERVAL+4, "input differs for %d cycles, but the state does not change", m.run);
  CHECK(!(d.btn_down_out && d.btn_up_out), "both strobes");
  if(d.btn_down_out||d.btn_up_out){
    CHECK(m.run>=INTERVAL-4, "strobe after the input differed for only %d cycles", m.run);
    CHECK(d.btn_down_out ? !m.st : m.st, "strobe of the wrong kind");
    m.due=1;
  }
  m.s2=m.s1; m.s1=!in;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.io.debouncer import Debouncer

    def build():
        t = Debouncer()
        return t, {"btn_in": t.btn_in}, {n: getattr(t, n) for n in ("btn_state_out", "btn_down_out", "btn_up_out")}
    n = 4 if tier == "quick" else 5
    return [Cfg("segments", build, CPP, {"INTERVAL": 32768, "SEG": n}, covers=["pressed"], ntraces=2, max_states=40_000_000, cost=3),
            Cfg("full", build, CPP, {"INTERVAL": 32768}, covers=["pressed", "released", "long glitch rejected"], ntraces=2)]

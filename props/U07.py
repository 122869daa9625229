"""SimpleClockDivider and DividingCounter against arithmetic models."""
from mc.runner import Cfg

ASSUMPTIONS = ["the divider's half-period counter free-runs from reset, so enable takes effect at the next half-period boundary",
               "the divided count is cumulative over wraps of the main counter (as the unit test requires)",
               "dividable after a wrap to zero is judged only when 2**width is a multiple of the divisor"]

DIV = r"""
struct Mon { u16 phase; u8 out; };
static int init(D& d, Mon& m, Ch& ch){ m.out=POL; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.clock_enable_in = ch(2);
  d.comb();
  CHECK(d.clock_out == m.out, "clock_out=%d, expected %d (phase %d of half period %d)", (int)d.clock_out, m.out, m.phase, HALF);
  COVERIF(m.out==!POL,"active level"); COVERIF(!d.clock_enable_in && m.out==!POL,"disabled while active");
  if(++m.phase==HALF){ m.phase=0; m.out = d.clock_enable_in ? !m.out : POL; }
  tick(d);
  return OK_;
}
"""
CNT = r"""
struct Mon { u32 cnt, divided, sub; u8 dividable, judged; };
static int init(D& d, Mon& m, Ch& ch){ m.judged=1; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.reset_in=ch(2); d.active_in=ch(2);
  d.comb();
  CHECK(d.counter_out==m.cnt, "counter_out=%d, expected %d", (int)d.counter_out, m.cnt);
  CHECK(d.divided_counter_out==m.divided, "divided_counter_out=%d, expected %d", (int)d.divided_counter_out, m.divided);
  if(m.judged) CHECK(d.dividable_out==m.dividable, "dividable_out=%d, expected %d at count %d", (int)d.dividable_out, m.dividable, m.cnt);
  COVERIF(m.dividable,"dividable");
  COVERIF(!d.active_in && m.sub,"paused inside a period");
  if(d.reset_in){ m.cnt=m.divided=m.sub=0; m.judged=0; m.dividable=0; }  // the flag's value across a reset is unspecified
  else if(d.active_in){
    m.cnt=(m.cnt+1)&((1u<<WIDTH)-1);
    m.judged=1; m.dividable=0; m.sub++;
    bool wrap = m.cnt==0;
    if(wrap) COVER("wrap");
    if(m.sub==DIVISOR){ m.sub=0; m.dividable=1; m.divided=(m.divided+1)&((1u<<WIDTH)-1); }
    if(wrap){ if(!m.dividable) m.judged=0; m.sub=0; }
  }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.utils import SimpleClockDivider, DividingCounter
    out = []

    def mkd(div, pol, default):
        def build():
            t = SimpleClockDivider(div) if default else SimpleClockDivider(div, clock_polarity=pol)
            return t, {"clock_enable_in": t.clock_enable_in}, {"clock_out": t.clock_out}
        return build
    for div in (2, 4, 6, 8, 10, 12, 14, 16, 18, 34, 64, 66, 100, 128, 256, 258, 512, 1000, 5000) + ((20, 32, 22222, 65536) if tier == "thorough" else ()):
        for pol in (0, 1):
            out.append(Cfg(f"clk{div}p{pol}", mkd(div, pol, pol == 0), DIV, {"HALF": div // 2, "POL": pol},
                           covers=["active level", "disabled while active"], ntraces=3))

    def mkc(div, w):
        def build():
            t = DividingCounter(div, w)
            return t, {"reset_in": t.reset_in, "active_in": t.active_in}, \
                {n: getattr(t, n) for n in ("counter_out", "divided_counter_out", "dividable_out")}
        return build
    pairs = [(1, 2), (2, 2), (2, 3), (3, 3), (4, 3), (5, 2), (5, 4), (3, 4), (6, 4), (7, 4), (8, 4), (5, 5), (6, 5), (12, 5), (10, 6), (10, 8), (16, 8), (100, 8), (200, 9), (300, 9)]
    if tier == "thorough":
        pairs += [(3, 6), (4, 6), (6, 6), (9, 5), (14, 5), (16, 5), (31, 5), (10, 7), (24, 7), (100, 8)]
    for div, w in pairs:
        out.append(Cfg(f"cnt{div}w{w}", mkc(div, w), CNT, {"DIVISOR": div, "WIDTH": w},
                       covers=(["dividable"] if div <= 1 << w else []) + ["wrap"] + (["paused inside a period"] if div > 1 else []), ntraces=3))
    return out

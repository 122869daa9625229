"""stretch_strobe_signal against a window over the strobe history."""
from mc.runner import Cfg

ASSUMPTIONS = ["strobe before the first cycle counts as low; to_cycles up to 17 with every strobe history, 31 to 33 (thorough up to 60) with at most three strobes in a window"]

CPP = r"""
struct Mon { u64 hist; };     // bit k: strobe k+1 cycles ago
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  u64 win;
  for(int k=0;k<2;k++){
    d.strobe = (N<=18 || __builtin_popcountll(m.hist)<3) && ch(2);   // long windows: at most 3 strobes in a window
    d.comb();
    // N==1 is documented as a direct connection in both modes
    u64 all = (m.hist<<1) | d.strobe;
    win = (DELAY && N>1) ? (all>>1) : all;
    bool exp = (win & ((1ull<<N)-1)) != 0;
    CHECK(d.out == exp, "output %d, expected %d (strobe history %llx, N=%d, delay=%d)", (int)d.out, exp, (unsigned long long)all, N, DELAY);
    CHECK(d.ret == d.out, "returned signal differs from the output");
  }
  COVERIF(d.out && !d.strobe && (m.hist & (1ull<<(N-1)))==0, "held");
  COVERIF(m.hist && d.strobe, "restrobe");
  COVERIF(!d.out, "low");
  int mask = OTHER ? 1+ch(3) : 1;
  if(mask & 1) m.hist = ((m.hist<<1)|d.strobe) & ((1ull<<N)-1);
  tick(d, mask);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Module, Signal
    from amlib.utils import stretch_strobe_signal

    def mk(n, delay, domain, given):
        def build():
            m = Module()
            strobe, out = Signal(name="strobe"), Signal(name="out")
            kw = dict(to_cycles=n)
            if delay:
                kw["allow_delay"] = True
            if given:
                kw["output"] = out
            if domain == "usb":
                kw["domain"] = m.d.usb
                by = Signal()
                m.d.sync += by.eq(~by)
            ret = stretch_strobe_signal(m, strobe, **kw)
            if not given:
                m.d.comb += out.eq(ret)
            outs = {"out": out, "ret": ret}
            if domain == "usb":
                outs["by"] = by
                if n == 1:       # make the domain exist
                    b2 = Signal()
                    m.d.usb += b2.eq(~b2)
                    outs["b2"] = b2
            return m, {"strobe": strobe}, outs
        return build

    out = []
    for n in list(range(1, 9)) + [9, 10, 12, 15, 16, 17, 31, 32, 33] + ([40, 50, 60] if tier == "thorough" else []):
        for delay in (0, 1):
            dom = "usb" if n in (1, 3, 4) else "sync"
            for given in (0, 1):
                out.append(Cfg(f"n{n}{'d' if delay else ''}_{dom}{'_out' if given else ''}", mk(n, delay, dom, given), CPP,
                               {"N": n, "DELAY": delay, "OTHER": int(dom == "usb")},
                               domains=("usb", "sync") if dom == "usb" else ("sync",),
                               covers=["low"] + (["held", "restrobe"] if n > 1 else []), ntraces=3))
    return out

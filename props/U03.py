"""Edge helpers, past_value_of and EdgeToPulse against the previous-cycle value."""
from mc.runner import Cfg

ASSUMPTIONS = ["edge helpers are judged for one-bit inputs; the register before the first clock edge is 0"]

CPP = r"""
struct Mon { u64 prev; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  for(int k=0;k<2;k++){          // two settings within one cycle: the outputs are combinational
#ifdef ALPHA
    static const u64 AB[]={ALPHA}; d.sig = AB[ch(sizeof AB/sizeof*AB)];
#else
    d.sig = ch(1u<<WIDTH);
#endif
    d.comb();
#ifdef EDGES
    CHECK(d.rise == (!m.prev && d.sig), "rising=%d for %d -> %d", (int)d.rise,(int)m.prev,(int)d.sig);
    CHECK(d.fall == (m.prev && !d.sig), "falling=%d for %d -> %d", (int)d.fall,(int)m.prev,(int)d.sig);
    CHECK(d.any == (m.prev != d.sig), "any=%d for %d -> %d", (int)d.any,(int)m.prev,(int)d.sig);
    CHECK(d.pulse == (!m.prev && d.sig), "pulse=%d for %d -> %d", (int)d.pulse,(int)m.prev,(int)d.sig);
#endif
    u64 past = d.past; if(WIDTH<64) past &= (1ull<<WIDTH)-1;
    CHECK(past == m.prev, "past value %d, expected %d", (int)past,(int)m.prev);
  }
  COVERIF((m.prev ^ (u64)d.sig) & ((1ull<<WIDTH)-1), "edge");
  int mask = OTHER ? 1+ch(3) : 1;      // the second domain must not influence anything
  if(mask & 1){ m.prev = d.sig; if(WIDTH<64) m.prev &= (1ull<<WIDTH)-1; }
  tick(d, mask);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Module, Signal, DomainRenamer, Shape
    from amlib.utils import (rising_edge_detected, falling_edge_detected, any_edge_detected, past_value_of, EdgeToPulse)

    def mk(width, domain, signed=False, default=False):
        def build():
            m = Module()
            sig = Signal(Shape(width, signed), name="sig")
            kw = {} if default else {"domain": domain}
            outs = {"past": past_value_of(m, sig, domain=domain)}
            if width == 1:
                outs["rise"] = rising_edge_detected(m, sig, **kw)
                outs["fall"] = falling_edge_detected(m, sig, **kw)
                outs["any"] = any_edge_detected(m, sig, **kw)
                etp = EdgeToPulse()
                m.submodules.etp = etp if domain == "sync" else DomainRenamer(domain)(etp)
                m.d.comb += etp.edge_in.eq(sig)
                outs["pulse"] = etp.pulse_out
            # a clock domain that exists in the design but clocks only this bystander
            if domain == "usb":
                by = Signal()
                m.d.sync += by.eq(~by)
                outs["by"] = by
            return m, {"sig": sig}, outs
        return build

    out = []
    for w in (1, 2, 3, 8) + ((9, 10) if tier == "thorough" else ()):
        for dom in ("sync", "usb"):
            for sg in ((False, True) if 1 < w <= 3 else (False,)):
                c = {"WIDTH": w, "OTHER": int(dom == "usb")}
                if w == 1:
                    c["EDGES"] = 1
                if w >= 8 and dom == "usb":
                    continue
                out.append(Cfg(f"w{w}{'s' if sg else ''}_{dom}", mk(w, dom, sg), CPP, c,
                               domains=("usb", "sync") if dom == "usb" else ("sync",), covers=["edge"], ntraces=4))
    for w in (16, 17, 32, 33, 60):
        ab = [0, (1 << w) - 1, 0x9E3779B97F4A7C15 & ((1 << w) - 1), 1 << (w - 1), 0x5a5a5a5a5a5a5a5a & ((1 << w) - 1)]
        for sg in (False, True):
            out.append(Cfg(f"w{w}{'s' if sg else ''}", mk(w, "sync", sg), CPP, {"WIDTH": w, "OTHER": 0, "ALPHA": ",".join(f"{x}ull" for x in ab)}, covers=["edge"]))
    out.append(Cfg("default_domain", mk(1, "sync", default=True), CPP, {"WIDTH": 1, "OTHER": 0, "EDGES": 1}, covers=["edge"]))
    return out

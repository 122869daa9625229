"""Input/output shift registers and NRZI encoder against explicit bit lists."""
from mc.runner import Cfg

ASSUMPTIONS = ["every bit history for depths up to 6 (thorough 8), a few values and sequences for depths up to 64; registers start at zero"]

INP = r"""
struct Mon { u8 q[DEPTH], n; };     // q[0] = most recent enabled bit
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
#if SEQ      // long registers: a fixed bit sequence since the last clear
  d.enable_in=ch(2); d.bit_in=(0x5a3c0ff2d96full>>(m.n%47))&1; d.clear_in=ch(2);
  if(d.clear_in) m.n=0; else if(d.enable_in && ++m.n==188) m.n=94;
#else
  d.enable_in=ch(2); d.bit_in=ch(2); d.clear_in=ch(2);
#endif
  d.comb();
  u64 e=0; for(int i=0;i<DEPTH;i++) e|=(u64)m.q[i]<<i;
  CHECK(d.value_out==e, "value_out=%llx, expected %llx", (unsigned long long)d.value_out, (unsigned long long)e);
  COVERIF((SEQ ? m.q[DEPTH-1] : e==(1ull<<DEPTH)-1) && d.clear_in && d.enable_in,"clear while shifting");
  if(d.clear_in) memset(m.q,0,sizeof m.q);
  else if(d.enable_in){ for(int i=DEPTH-1;i>0;i--) m.q[i]=m.q[i-1]; m.q[0]=d.bit_in; }
  tick(d);
  return OK_;
}
"""
OUT = r"""
static const u64 VAL[]={0x9E3779B97F4A7C15ull&((2ull<<(DEPTH-1))-1),0x8000000000000001ull>>(64-DEPTH)|1,0x5a3c0ff2d96f1e87ull>>(64-DEPTH)};
struct Mon { u8 q[DEPTH]; };     // q[0] = bit on the output
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.enable_in=ch(2); d.we_in=ch(2); d.value_in= SEQ ? VAL[ch(3)] : ch(1u<<DEPTH);
  d.comb();
  CHECK(d.bit_out==m.q[0], "bit_out=%d, expected %d", (int)d.bit_out, m.q[0]);
  COVERIF(d.we_in && d.enable_in,"load while shifting");
  if(d.we_in) for(int i=0;i<DEPTH;i++) m.q[i]=(d.value_in>>i)&1;
  else if(d.enable_in){ u8 f=m.q[0]; for(int i=0;i+1<DEPTH;i++) m.q[i]=m.q[i+1]; m.q[DEPTH-1]=ROT?f:0; }
  tick(d);
  return OK_;
}
"""
NRZI = r"""
struct Mon { u8 level; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.data_in=ch(2);
  d.comb();
  CHECK(d.nrzi_out==m.level, "nrzi_out=%d, expected %d", (int)d.nrzi_out, m.level);
  COVERIF(m.level,"high");
  m.level^=d.data_in;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.utils import InputShiftRegister, OutputShiftRegister, NRZIEncoder
    out = []

    def mki(n):
        def build():
            t = InputShiftRegister(n)
            return t, {k: getattr(t, k) for k in ("enable_in", "bit_in", "clear_in")}, {"value_out": t.value_out}
        return build

    def mko(n, rot):
        def build():
            t = OutputShiftRegister(n, rotate=rot) if rot else OutputShiftRegister(n)
            return t, {k: getattr(t, k) for k in ("enable_in", "we_in", "value_in")}, {"bit_out": t.bit_out}
        return build
    for n in (1, 2, 3, 5, 6) + ((4, 7, 8) if tier == "thorough" else ()):
        out.append(Cfg(f"in{n}", mki(n), INP, {"DEPTH": n, "SEQ": 0}, covers=["clear while shifting"], ntraces=3))
        for rot in (False, True):
            out.append(Cfg(f"out{n}{'r' if rot else ''}", mko(n, rot), OUT, {"DEPTH": n, "SEQ": 0, "ROT": int(rot)},
                           covers=["load while shifting"], ntraces=3))
    for n in (8, 9, 12, 16, 17, 24, 32, 33, 64):
        out.append(Cfg(f"long_in{n}", mki(n), INP, {"DEPTH": n, "SEQ": 1}, covers=["clear while shifting"], ntraces=3))
        for rot in (False, True):
            out.append(Cfg(f"long_out{n}{'r' if rot else ''}", mko(n, rot), OUT, {"DEPTH": n, "SEQ": 1, "ROT": int(rot)},
                           covers=["load while shifting"], ntraces=3))

    def bn():
        t = NRZIEncoder()
        return t, {"data_in": t.data_in}, {"nrzi_out": t.nrzi_out}
    out.append(Cfg("nrzi", bn, NRZI, {}, covers=["high"]))
    return out

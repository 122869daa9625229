"""Serial analyzer readouts: AsyncSerialILA line -> bytes -> host frontend, SyncSerialILA over SPI in all modes, host parsing and VCD output for all values."""
import contextlib
import io
import os
import sys
import tempfile
import types
from mc.runner import Cfg, PyCfg

ASSUMPTIONS = ["signal names are distinct; the serial port delivers exactly the transmitted bytes (8n1 at the configured divisor)",
               "SPI clock half period of at least 5 clock cycles, 8 cycles of set-up after selection and between selections; at most depth words per selection",
               "VCD times are judged to 1 ns (the file's resolution)"]

UART = r"""
// what the real host frontend makes of the received bytes of one sample (wide samples: the mapping established by host_parse_vcd)
#if PACKED
#define PARSE(r) ((r)&SMASK)
#else
static const u32 PTAB[]={PARSETAB};
#define PARSE(r) PTAB[r]
#endif
static const u64 VALS[]={VALTAB};
struct Mon { u64 q[DEPTH]; u64 hv[PRE+1]; u8 he[PRE+1]; u8 qn, cap, n, caps, st, cnt, bit, sh, nb, idle, age2; u64 raw; u16 age; u8 got; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  u64 v=0; int trig=0, en=1;
  bool near_ = m.qn==0 && !m.cap && m.st==0 && m.idle>=6 && m.caps<CAPS;
  if(m.cap || near_) v=VALS[SEQN ? (m.n+m.caps*3+m.idle)%NVAL : ch(NVAL)];
  if(near_ && m.idle>=6+PRE) trig=1;
  if(WITHEN && m.cap) en=ch(2);
  SETSIG
  d.trigger=trig; SETEN d.comb();
  if(trig){ m.cap=1; m.n=0; m.caps++; m.idle=0; }
  else if(m.cap){ COVERIF(!en,"disabled cycle"); if(m.he[PRE]){ m.q[m.n++]=m.hv[PRE]; if(m.n==DEPTH){ m.cap=0; m.n=0; m.qn=DEPTH; m.got=0; m.age=0; } } }
  else if(m.qn==0 && m.st==0){ if(m.idle<200) m.idle++; if(m.caps>=CAPS && m.idle>=150) { m.idle=150; } }
  // 8n1 receiver
  if(m.st==0){ if(!d.tx && (PRE==0 || m.qn || m.caps)){ CHECK(m.qn>0,"character although nothing is to be sent"); m.st=1; m.cnt=DIV+DIV/2-1; m.bit=0; m.sh=0; if(DIV==1) m.cnt=0; } else if(m.qn) CHECK(++m.age<40+20*DIV,"captured samples are not transmitted"); }
  else if(m.cnt) m.cnt--;
  else {
    if(m.bit<8){ m.sh |= d.tx<<m.bit; m.bit++; m.cnt=DIV-1; }
    else {
      CHECK(d.tx==1,"stop bit missing");
      m.raw |= (u64)m.sh<<(8*m.nb); m.st=0; m.sh=0; m.bit=0; m.age=0;
      if(++m.nb==BPS){
        u64 val=PARSE(m.raw);
        CHECK(val==m.q[m.got],"the host frontend reads sample %d as 0x%llx, captured 0x%llx (line 0x%llx)",m.got,(unsigned long long)val,(unsigned long long)m.q[m.got],(unsigned long long)m.raw);
        m.nb=0; m.raw=0; m.q[m.got]=0; if(++m.got==DEPTH){ m.qn=0; m.got=0; COVER("all samples"); COVERIF(m.caps==2,"second capture"); }
      }
    }
  }
  for(int i=PRE;i>0;i--){ m.hv[i]=m.hv[i-1]; m.he[i]=m.he[i-1]; }
  m.hv[0]=v; m.he[0]=en;
  tick(d);
  return OK_;
}
"""

SPI = r"""
static const u64 VALS[]={VALTAB};
#define ACT (CSH?0:1)
enum { CAPT, GAP_, SETUP, LEAD, TRAIL };
struct Mon { u64 q[DEPTH]; u64 hv[PRE+1]; u8 he[PRE+1]; u8 seg, cnt, bit; CT n, word; u8 runs, clk, sel, trig, warm, hold, t; u64 sh; };
static int init(D& d, Mon& m, Ch& ch){ m.seg=CAPT; return OK_; }
static int bitin(D& d, Mon& m){
  m.sh=(m.sh<<1)|(d.spi__sdo&1); 
  if(++m.bit==BITS){
    CHECK(m.sh==m.q[m.word],"word %d of the selection is 0x%llx, captured 0x%llx",m.word,(unsigned long long)m.sh,(unsigned long long)m.q[m.word]);
    m.bit=0; m.sh=0; m.word++; COVERIF(m.word==DEPTH && m.runs,"complete readout after another selection"); COVERIF(m.word==DEPTH,"complete readout");
  }
  return OK_;
}
static int step(D& d, Mon& m, Ch& ch){
  u64 v=0; int trig=0, en=1;
  if(m.seg==CAPT){
    bool wind = m.warm>=6 && m.n<DEPTH;
    if(wind){ v=VALS[SEQN ? m.t : ch(NVAL)]; if(SEQN) m.t=(m.t+1)%NVAL; }
    if(m.warm<6+PRE) m.warm++;
    else if(!m.trig){ trig=1; m.trig=1; }
    else if(m.n<DEPTH){ if(WITHEN){ en=ch(2); COVERIF(!en,"disabled cycle"); } if(m.he[PRE]) m.q[m.n++]=m.hv[PRE]; }
    else if(++m.cnt>=5){ m.seg=GAP_; m.cnt=0; }
    for(int i=PRE;i>0;i--){ m.hv[i]=m.hv[i-1]; m.he[i]=m.he[i-1]; }
    m.hv[0]=v; m.he[0]=en;
    if(m.n==DEPTH){ memset(m.hv,0,sizeof m.hv); memset(m.he,0,sizeof m.he); m.t=0; }
  }
  SETSIG d.trigger=trig; SETEN
  // SPI controller
  bool lead=false, trail=false;
  if(m.seg!=CAPT){
    if(m.cnt) m.cnt--;
    else switch(m.seg){
      case GAP_: if(m.runs>=RUNS) ASSUME(false); m.sel=1; m.seg=SETUP; m.cnt=8; m.bit=m.word=0; m.sh=0; m.hold=0; break;
      case SETUP: case TRAIL:
        if(m.seg==TRAIL && m.word==DEPTH){ m.sel=0; m.seg=GAP_; m.cnt=8; m.runs++; break; }
        if(m.bit==ABORT && m.runs+1<RUNS && !m.hold){ m.hold=1; if(ch(2)){ m.sel=0; m.seg=GAP_; m.cnt=8; m.runs++; m.bit=0; m.sh=0; m.word=0; COVER("aborted selection"); break; } }
        if(m.bit!=ABORT) m.hold=0;
        lead=true; m.seg=LEAD; m.cnt=HALF-1; break;
      case LEAD: trail=true; m.seg=TRAIL; m.cnt=HALF-1; break;
    }
  }
  // the controller samples the line as it is just before the edge it generates
  if(CPHA? trail : lead){ d.spi__sck = m.clk ^ CPOL; d.spi__cs = m.sel? ACT : !ACT; d.comb(); RUN(bitin(d,m)); }
  if(lead) m.clk=1;
  if(trail) m.clk=0;
  d.spi__sck = m.clk ^ CPOL; d.spi__cs = m.sel? ACT : !ACT; d.spi__sdi = m.clk;
  d.comb();
  if(m.seg==GAP_ && m.warm==6+PRE && m.runs==0) CHECK(d.complete,"capture not complete");
  tick(d);
  return OK_;
}
"""


def _frontend(ila, data):
    from amlib.debug.ila import AsyncSerialILAFrontend

    class Port:                                  # what the device sent, read once; a second capture would follow
        def __init__(self, *a, **k):
            self.data = data

        def reset_input_buffer(self):
            pass

        def read(self, n=1):
            r, self.data = self.data[:n], self.data[n:]
            return r

        def __getattr__(self, name):
            if name == "in_waiting":
                return len(self.data)
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: None
    fake = types.ModuleType("serial")
    fake.Serial = Port
    old = sys.modules.get("serial")
    sys.modules["serial"] = fake
    try:
        return AsyncSerialILAFrontend("/dev/null", 115200, timeout=1, ila=ila)
    finally:
        if old is None:
            del sys.modules["serial"]
        else:
            sys.modules["serial"] = old


def _parse_table(ila, nbytes):
    """Cat of all signals as understood by the host frontend, for every raw sample."""
    tab = []
    n = 1 << (8 * nbytes)
    depth = ila.sample_depth
    for base in range(0, n, depth):
        words = [w for w in range(base, min(n, base + depth))]
        f = _frontend(ila, b"".join(w.to_bytes(nbytes, "little") for w in words))
        f.refresh()
        for s in f.samples:
            v = pos = 0
            for sig in ila.signals:
                v |= (s[sig.name].to_int() & ((1 << len(sig)) - 1)) << pos
                pos += len(sig)
            tab.append(v)
    return tab


def _mksigs(shapes):
    from amaranth import Signal
    return [Signal(s, name=f"s{i}") for i, s in enumerate(shapes)]


def _parse_vcd(text):
    """-> {name: [(time, value), ...]}, last write of each time wins"""
    ids, out, t = {}, {}, 0
    for line in text.splitlines():
        w = line.split()
        if not w:
            continue
        if w[0] == "$var":
            ids[w[3]] = w[4]
            out[w[4]] = []
        elif w[0][0] == "#":
            t = int(w[0][1:])
        elif w[0][0] == "b":
            out[ids[w[1]]].append((t, int(w[0][1:], 2) if set(w[0][1:]) <= {"0", "1"} else None))
        elif w[0][0] in "01" and w[0][1:] in ids:
            out[ids[w[0][1:]]].append((t, int(w[0][0])))
    return out


def _at(hist, t):
    v = None
    for tt, x in hist:
        if tt <= t:
            v = x
    return v


def host(tier):
    from itertools import product
    from amaranth import signed
    from amlib.debug.ila import StreamILA, ILACoreParameters
    states = trans = 0
    viol, samples = [], []
    layouts = [(1,), (3, 2), (1, 1, 1), (8,), (9,), (4, 12), (signed(3), 2), (16, 1), (7, signed(9), 1), (30,), (32, 1), (1, 33, 5)]
    rates = [60e6, 10e6, 48e3] + ([1e6, 33.3e6, 100e6] if tier != "quick" else [])
    depth = 3 if tier == "quick" else 4
    for lay in layouts:
        sigs = _mksigs(lay)
        w = sum(len(s) for s in sigs)
        full = (1 << w) - 1
        alpha = sorted({0, full, full // 3, 1, 1 << (w - 1), 0x0123456789abcdef & full} | (set() if tier == "quick" else {1 << k for k in range(0, w, 3)}))
        if w <= 4 and tier != "quick":
            alpha = list(range(1 << w))
        alpha = alpha[:16]
        if tier != "quick" and len(alpha) > 8:
            alpha = alpha[:8]
        for ri, rate in enumerate(rates):
            ila = StreamILA(signals=sigs, sample_depth=depth, sample_rate=rate)
            with tempfile.TemporaryDirectory() as tmp:
                fn = os.path.join(tmp, "ila.P")
                ILACoreParameters(ila).pickle(fn)
                rest = ILACoreParameters.unpickle(fn)
            got = [(s.name, len(s), s.shape().signed) for s in rest.signals]
            want = [(s.name, len(s), s.shape().signed) for s in sigs]
            if got != want:
                viol.append((f"pickle {lay}", f"signals come back from the pickle as {got}, were {want}"))
            for p in ("sample_width", "sample_depth", "sample_rate", "sample_period", "bits_per_sample", "bytes_per_sample"):
                if getattr(rest, p) != getattr(ila, p):
                    viol.append((f"pickle {lay} {p}", f"{p} comes back from the pickle as {getattr(rest, p)}"))
            for seq in product(alpha, repeat=depth):
                states += 1
                raw = b"".join(x.to_bytes(ila.bytes_per_sample, "little") for x in seq)
                for core in (ila, rest):
                    f = _frontend(core, raw)
                    exp = []
                    for x in seq:
                        d, pos = {}, 0
                        for s in sigs:
                            d[s.name] = (x >> pos) & ((1 << len(s)) - 1)
                            pos += len(s)
                        exp.append(d)
                    es = list(f.enumerate_samples())
                    got = [{n: v.to_int() for n, v in s.items()} for _, s in es]
                    lens = [{n: len(v) for n, v in s.items()} for _, s in es]
                    trans += 1
                    if got != exp or any(l != {s.name: len(s) for s in sigs} for l in lens):
                        viol.append((f"parse {lay}", f"layout {lay}: samples {[hex(x) for x in seq]} are read by the host as {got}"))
                        break
                    if [{n: v.to_int() for n, v in s.items()} for _, s in f.enumerate_samples()] != exp:
                        viol.append((f"enumerate {lay}", "enumerating the samples of the same capture again does not return them"))
                        break
                    if any(abs(t - i / rate) > 1e-3 / rate for i, (t, _) in enumerate(es)):
                        viol.append((f"time {lay} {rate}", f"timestamps {[t for t, _ in es]} at a sample rate of {rate}"))
                        break
                    if (ri or tier == 'quick' and states % 4) and seq != tuple(alpha[:depth]):
                        continue
                    for clock in (True, False):
                        with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
                            fn = os.path.join(tmp, "x.vcd")
                            try:
                                f.emit_vcd(fn, add_clock=clock, gtkw_filename=os.path.join(tmp, "x.gtkw") if clock else None)
                            except Exception as e:
                                viol.append((f"vcd {lay} {rate}", f"layout {lay}, rate {rate}: writing the VCD raises {type(e).__name__}: {e}"))
                                break
                            v = _parse_vcd(open(fn).read())
                        trans += 1
                        for i, d in enumerate(exp):
                            # +1 ns: times are truncated to the file's resolution; must hold till just before the next sample
                            for t in (i / rate * 1e9 + 1, (i + 1) / rate * 1e9 - 2):
                                bad = [n for n in d if (_at(v.get(n, []), t) or 0) & ((1 << len(dict((s.name, s) for s in sigs)[n])) - 1) != d[n] or _at(v.get(n, []), t) is None]
                                if bad:
                                    viol.append((f"vcd {lay} {rate}", f"layout {lay}, rate {rate}: VCD shows {bad[0]}={_at(v.get(bad[0], []), t)} at {t} ns, sample {i} has {d[bad[0]]}"))
                                    break
                        if clock:
                            for i in range(len(exp) - 1):
                                if _at(v["ila_clock"], i / rate * 1e9 + 1) != 1 or _at(v["ila_clock"], (i + .5) / rate * 1e9 + 1) != 0:
                                    viol.append((f"vcd clock {lay} {rate}", f"rate {rate}: the clock in the VCD does not follow the sample period ({v['ila_clock'][:6]})"))
                                    break
                if viol:
                    break
            if viol:
                break
        samples.append(f"{lay}: alphabet of {len(alpha)} values, {depth} samples, {len(rates)} rates")
        if viol:
            break
    return dict(states=states, transitions=trans, validated=states, samples=samples, violations=viol[:5])


def configs(tier):
    from amaranth import signed
    from amlib.debug.ila import AsyncSerialILA, SyncSerialILA, ILACoreParameters
    out = [PyCfg("host_parse_vcd", host)]

    def mku(shapes, depth, div, pre, dom, en):
        def build():
            sigs = _mksigs(shapes)
            t = AsyncSerialILA(signals=sigs, sample_depth=depth, divisor=div, samples_pretrigger=pre, domain=dom, **({"with_enable": True} if en else {}))
            return t, {**{s.name: s for s in sigs}, "trigger": t.trigger, **({"enable": t.enable} if en else {})}, {"tx": t.tx, "complete": t.complete}
        return build

    def uart(name, shapes, depth, div, vals, caps=2, dom="sync", seqn=0, pre=0, en=False):
        from amlib.debug.ila import StreamILA
        sigs = _mksigs(shapes)
        ila = AsyncSerialILA(signals=sigs, sample_depth=depth, divisor=div)
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "ila.P")
            ILACoreParameters(ila).pickle(fn)
            core = ILACoreParameters.unpickle(fn)
        nb = ila.bytes_per_sample
        packed = nb > 2
        try:
            tab = [0] if packed else _parse_table(core, nb)
        except Exception as e:        # the frontend itself fails: an unusable table shows as a violation
            tab = [0xffffffff] * (1 << 8 * nb)
        pos, setsig = 0, ""
        for s in sigs:
            setsig += f"d.{s.name}=(v>>{pos})&{(1 << len(s)) - 1}ull; "
            pos += len(s)
        out.append(Cfg(name, mku(shapes, depth, div, pre, dom, en), UART,
                       {"PARSETAB": ",".join(map(str, tab)), "VALTAB": ",".join(f"{v}ull" for v in vals), "NVAL": len(vals), "DEPTH": depth, "DIV": div, "BPS": nb,
                        "PACKED": int(packed), "SMASK": f"{(1 << pos) - 1}ull",
                        "CAPS": caps, "PRE": pre, "WITHEN": int(en), "SETEN": "d.enable=en;" if en else "", "SEQN": seqn, "SETSIG": setsig},
                       covers=["all samples"] + (["second capture"] if caps > 1 else []) + (["disabled cycle"] if en else []), domains=(dom,), ntraces=2, max_states=20_000_000))
    uart("uart_w1_d4", (1,), 4, 2, [0, 1])
    uart("uart_w5_d3", (3, signed(2)), 3, 3, [0, 31, 9, 20])
    uart("uart_w8_d2", (8,), 2, 2, [0, 255, 0x5a, 0x81, 0x18])
    uart("uart_w9_d3", (4, 5), 3, 2, [0x1ff, 0x100, 0xa5, 0])
    uart("uart_w16_d2", (1, 15), 2, 4, [0x1234, 0xff00, 0x00ff, 0x8001])
    uart("uart_domain_w6", (6,), 2, 2, [0, 63, 21], dom="fast")
    uart("uart_w17_d2", (16, 1), 2, 2, [0x1a5c3, 0x0ff00, 0x10001])
    uart("uart_3sig_w24_d5", (7, signed(9), 8), 5, 3, [0xa5c31f, 0x5a3ce0], caps=1)
    uart("uart_w33_d3", (1, 32), 3, 2, [0x1a5c3f00d, 0x05a3c0ff2])
    uart("uart_w60_d2", (30, 30), 2, 5, [0xa5c3f00d1234567, 0x5a3c0ff2edcba98])
    uart("uart_w1_d32", (1,), 32, 2, [1, 0, 1, 1, 0, 0, 0], seqn=1)
    uart("uart_w13_d32", (6, 7), 32, 2, [(i * 0x9e5) & 0x1fff for i in range(37)], seqn=1)
    uart("uart_w4_div10", (1, 1, 2), 4, 10, [15, 0, 6], caps=2)
    uart("uart_w5_d1", (5,), 1, 2, [0, 31, 9, 20])
    uart("uart_w9_div1", (9,), 3, 1, [0, 311, 9, 20])
    uart("uart_w6_d3_p2", (2, 4), 3, 2, [0x2a, 0x15, 0x3f], pre=2)
    uart("uart_w9_d3_p5", (9,), 3, 2, [0x12a, 0x0d5], pre=5)
    uart("uart_w5_d3_p1_en", (5,), 3, 2, [21, 10, 31], pre=1, en=True)
    uart("uart_w9_d40_p4", (9,), 40, 2, [(i * 0x95 + 1) & 0x1ff for i in range(43)], pre=4, seqn=1)
    if tier == "thorough":
        uart("t_uart_w9_d200_p1", (9,), 200, 3, [(i * 0x95 + 1) & 0x1ff for i in range(211)], pre=1, seqn=1)
        uart("t_uart_w9_d4_p3_en", (9,), 4, 2, [0x12a, 0x0d5], pre=3, en=True)
        uart("t_uart_w8_all", (1, 3, signed(4)), 2, 2, list(range(256)), caps=1)
        uart("t_uart_w10_d5", (10,), 5, 3, [0x3ff, 0x2a5, 0x100, 0x0ff, 0], caps=1)
        uart("t_uart_w12_d3", (5, 7), 3, 8, list(range(0, 4096, 273)), caps=1)

    def mks(w, depth, cpol, cpha, csh, dom, pre, en):
        def build():
            sigs = _mksigs(w if isinstance(w, tuple) else (w,))
            kw = {"cs_idles_high": True} if csh else {}
            if en:
                kw["with_enable"] = True
            t = SyncSerialILA(signals=sigs, sample_depth=depth, clock_polarity=cpol, clock_phase=cpha, samples_pretrigger=pre, domain=dom, **kw)
            return t, {**{s.name: s for s in sigs}, **({"enable": t.enable} if en else {}), "trigger": t.trigger, "spi__cs": t.spi.cs, "spi__sck": t.spi.sck, "spi__sdi": t.spi.sdi}, {"spi__sdo": t.spi.sdo, "complete": t.complete}
        return build

    def spi(name, w, depth, cpol, cpha, csh, vals, runs=2, half=5, abort=5, dom="sync", seqn=0, pre=0, en=False):
        pos, setsig = 0, ""
        for i, s in enumerate(w if isinstance(w, tuple) else (w,)):
            k = s if isinstance(s, int) else s.width
            setsig += f"d.s{i}=(v>>{pos})&{(1 << k) - 1}ull; "
            pos += k
        bits = 32
        while bits < pos:
            bits *= 2
        out.append(Cfg(name, mks(w, depth, cpol, cpha, csh, dom, pre, en), SPI,
                       {"VALTAB": ",".join(f"{v}ull" for v in vals), "NVAL": len(vals), "DEPTH": depth, "BITS": bits, "CPOL": cpol, "CPHA": cpha, "CSH": int(csh),
                        "RUNS": runs, "SEQN": seqn, "SETSIG": setsig, "HALF": half, "ABORT": abort,
                        "PRE": pre, "WITHEN": int(en), "SETEN": "d.enable=en;" if en else "", "CT": "u16" if depth > 250 else "u8"},
                       covers=["complete readout", "complete readout after another selection", "aborted selection"] + (["disabled cycle"] if en else []), domains=(dom,), ntraces=2, max_states=20_000_000))
    for cpol in (0, 1):
        for cpha in (0, 1):
            spi(f"spi_m{cpol}{cpha}_w12", 12, 3, cpol, cpha, False, [0xa51, 0x5ae])
    spi("spi_w12_d1", 12, 1, 0, 1, False, [0xa51, 0x5ae])
    spi("spi_cs_low_w12", 12, 3, 0, 1, True, [0xa51, 0x5ae])
    spi("spi_cs_low_m10_w32", 32, 2, 1, 0, True, [0x80000001, 0x7ffffffe, 0], abort=31)
    spi("spi_w33", 33, 2, 0, 1, False, [0x123456789, 0x0f00ff00fe & 0x1ffffffff], abort=40)
    spi("spi_domain_w5", 5, 3, 0, 1, False, [21, 10], dom="fast")
    spi("spi_3sig_w17", (1, signed(6), 10), 4, 1, 1, False, [0x1a5c3, 0x05a3c])
    spi("spi_2sig_w40", (8, 32), 2, 0, 0, True, [0xa5c3f00d12, 0x5a3c0ff2ed], abort=33)
    spi("spi_w64_d5", (60, 4), 5, 0, 1, False, [0xa5c3f00d12345678, 0x5a3c0ff2edcba987], abort=63)
    spi("spi_w1_d17", 1, 17, 0, 0, False, [1, 0, 1, 1, 0, 0, 0], abort=31, seqn=1)
    spi("spi_w20_d32", (12, 8), 32, 1, 0, False, [(i * 0x9e3d5 + 1) & 0xfffff for i in range(37)], abort=17, seqn=1)
    spi("spi_w7_d3_p3", 7, 3, 0, 1, False, [0x55, 0x2a], pre=3)
    spi("spi_w7_d3_p1_en", 7, 3, 1, 1, False, [0x55, 0x2a], pre=1, en=True)
    spi("spi_w20_d40_p2", (12, 8), 40, 0, 0, False, [(i * 0x9e3d5 + 1) & 0xfffff for i in range(43)], abort=17, seqn=1, pre=2)
    spi("spi_w9_d300", 9, 300, 1, 1, True, [(i * 0x95 + 1) & 0x1ff for i in range(251)], abort=13, seqn=1)
    if tier == "thorough":
        spi("t_spi_w9_d3_p5_en", 9, 3, 0, 1, False, [0x155, 0x0aa], pre=5, en=True)
        for ab in (0, 1, 30, 31):
            spi(f"t_spi_m01_abort{ab}", 32, 4, 0, 1, False, [0xa5a5f00f, 0x5a5a0ff1], runs=3, abort=ab)
            spi(f"t_spi_m10_abort{ab}", 32, 4, 1, 0, False, [0xa5a5f00f, 0x5a5a0ff1], runs=3, half=7, abort=ab)
    return out

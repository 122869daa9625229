"""Stream connections: field-wise forwarding, and stream -> FIFO -> stream as an exact queue of flagged words."""
from mc.runner import Cfg

ASSUMPTIONS = ["FIFO primitives are amaranth's (SyncFIFO, SyncFIFOBuffered); payload width <= 2, depth <= 4",
               "producers may change or withdraw an unaccepted word (more general than the stream rule)",
               "the first/last bits lie above the payload bits, as documented"]

JOIN = r"""
struct Mon { u8 x; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.s_valid=ch(2); d.s_first=ch(2); d.s_last=ch(2); d.s_payload=ch(1<<PW); d.t_ready=ch(2);
#ifdef EXTRA
  d.s_tag=ch(4); d.s_error=ch(2);
#endif
  d.comb();
#define SAME(f, omitted) if(omitted) CHECK(d.t_##f==0, "omitted field " #f " is driven"); else CHECK(d.t_##f==d.s_##f, #f " is %d, source has %d",(int)d.t_##f,(int)d.s_##f)
  SAME(valid,O_VALID); SAME(first,O_FIRST); SAME(last,O_LAST); SAME(payload,O_PAYLOAD);
#ifdef EXTRA
  SAME(tag,O_TAG); SAME(error,0);
#endif
  CHECK(d.s_ready==(O_READY ? 0 : d.t_ready), "ready is %d, sink has %d",(int)d.s_ready,(int)d.t_ready);
  COVERIF(d.t_valid && d.t_ready,"transfer");
  tick(d);
  return OK_;
}
"""
FIFO = r"""
struct Mon { u8 n, wait; u8 q[CAP+1]; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.s_valid=ch(2); 
  d.s_payload=ch(1<<PW); d.s_first=ch(2); d.s_last=ch(2);
  d.t_ready=ch(2);
  d.comb();
  int word = d.s_payload | (HASF?d.s_first:0)<<PW | (HASL?d.s_last:0)<<(PW+1);
  if(d.t_valid){
    CHECK(m.n>0, "a word is offered although none is stored");
    CHECK(d.t_payload==(m.q[0]&((1<<PW)-1)), "payload %d, expected %d",(int)d.t_payload,m.q[0]&((1<<PW)-1));
    CHECK(d.t_first==((m.q[0]>>PW)&1), "first flag %d, expected %d",(int)d.t_first,(m.q[0]>>PW)&1);
    CHECK(d.t_last==((m.q[0]>>(PW+1))&1), "last flag %d, expected %d",(int)d.t_last,(m.q[0]>>(PW+1))&1);
    m.wait=0;
  } else if(m.n){ m.wait++; CHECK(m.wait<=3, "a stored word is not offered"); }
  CHECK(m.n || !(d.t_valid), "valid without data");
  bool in=d.s_valid&&d.s_ready, out=d.t_valid&&d.t_ready;
  if(in) CHECK(m.n<CAP || out, "more than %d words accepted", CAP);
  COVERIF(m.n>=DEPTH && !d.s_ready,"full"); COVERIF(in&&out,"in and out"); COVERIF(out&&d.t_first&&!d.t_last,"first"); COVERIF(out&&d.t_last,"last");
  if(out){ for(int i=0;i<CAP;i++) m.q[i]=m.q[i+1]; m.n--; }
  if(in) m.q[m.n++]=word;
  for(int i=m.n;i<=CAP;i++) m.q[i]=0;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Module
    from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered
    import amlib.stream as st
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    out = []
    extra = [("tag", 2), ("error", 1)]

    def mkj(how, pw, omit, ext):
        def build():
            m = Module()
            kw = {"extra_fields": extra} if ext else {}
            s, t = StreamInterface(payload_width=pw, **kw), StreamInterface(payload_width=pw, **kw)
            o = {"omit": omit} if omit else {}
            want = dict(valid=1, ready=1, first=1, last=1, payload=pw, **(dict(extra) if ext else {}))
            assert {n: len(s[n]) for n in want} == want, "a stream field has not the declared width"
            m.d.comb += {"attach": lambda: s.attach(t, **o), "connect": lambda: s.connect(t, **o),
                         "stream_eq": lambda: t.stream_eq(s, **o), "tap": lambda: t.tap(s),
                         "tap_ready": lambda: t.tap(s, tap_ready=True)}[how]()
            f = ["valid", "first", "last", "payload"] + (["tag", "error"] if ext else [])
            ins = {f"s_{n}": s[n] for n in f}
            outs = {f"t_{n}": t[n] for n in f}
            if how == "tap_ready":      # the tap's ready follows the tapped stream's ready
                ins["t_ready"], outs["s_ready"] = s.ready, t.ready
            else:
                ins["t_ready"], outs["s_ready"] = t.ready, s.ready
            if how != "tap_ready":
                assert (s.data is s.payload) or (s.data.width if hasattr(s.data, "width") else len(s.data)) == pw
            return m, ins, outs
        return build
    for ext in (0, 1):
        for how in ("attach", "connect", "stream_eq", "tap", "tap_ready"):
            oms = [None] if how.startswith("tap") else [None, {"ready"}, {"first", "last"}, ["valid"], {"payload", "tag"}]
            for k, om in enumerate(oms):
                if om and "tag" in om and not ext:
                    continue
                oset = set(om or ()) | ({"ready"} if how == "tap" else set())
                c = {f"O_{n.upper()}": int(n in oset) for n in ("valid", "first", "last", "payload", "ready", "tag")}
                c["PW"] = 2
                if ext:
                    c["EXTRA"] = 1
                out.append(Cfg(f"{how}{'_x' if ext else ''}_{k}", mkj(how, 2, om, ext), JOIN, c, domains=(),
                               covers=[] if om and "valid" in om else ["transfer"], ntraces=2))

    def mkf(pw, kind, depth, hf, hl, swap):
        def build():
            m = Module()
            w = pw + 2
            fb = pw + swap if hf else None
            lb = pw + 1 - swap if hl else None
            m.submodules.fifo = f = {"plain": lambda: SyncFIFO(width=w, depth=depth),
                                     "buf": lambda: SyncFIFOBuffered(width=w, depth=depth)}[kind]()
            s, t = StreamInterface(payload_width=pw), StreamInterface(payload_width=pw)
            m.d.comb += connect_stream_to_fifo(s, f, **({"firstBit": fb} if hf else {}), **({"lastBit": lb} if hl else {}))
            m.d.comb += connect_fifo_to_stream(f, t, **({"firstBit": fb} if hf else {}), **({"lastBit": lb} if hl else {}))
            ins = {f"s_{n}": s[n] for n in ("valid", "first", "last", "payload")}
            outs = {f"t_{n}": t[n] for n in ("valid", "first", "last", "payload")}
            ins["t_ready"], outs["s_ready"] = t.ready, s.ready
            return m, ins, outs
        return build
    depths = (1, 2, 3) + ((4, 5) if tier == "thorough" else ())
    for kind in ("plain", "buf"):
        for depth in depths:
            for pw, hf, hl, sw in ((1, 1, 1, 0), (2, 1, 1, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 0), (0, 1, 1, 0), (0, 1, 1, 1), (1, 1, 1, 1)):
                if pw == 2 and depth > 2:
                    continue
                out.append(Cfg(f"{kind}{depth}_w{pw}{'f' if hf else ''}{'l' if hl else ''}{'s' if sw else ''}", mkf(pw, kind, depth, hf, hl, sw), FIFO,
                               {"PW": pw, "DEPTH": depth, "CAP": depth + 2, "HASF": hf, "HASL": hl},
                               covers=["full"] + (["first"] if hf else []) + (["last"] if hl else [])
                               + (["in and out"] if depth > 1 else []), ntraces=4, cost=depth, max_states=20_000_000))
    return out

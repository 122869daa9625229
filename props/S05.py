"""PacketListStreamer against its packet list."""
from mc.runner import Cfg

ASSUMPTIONS = ["packets are not empty; start is free in every cycle; it must be ignored from the cycle after "
               "an accepted start up to and including the done cycle"]

CPP = r"""
static const u32 WORDS[NW]={WLIST}; static const u8 FIRST[NW]={FLIST}; static const u8 LAST[NW]={LLIST};
struct Mon { u16 pos; u8 phase, wait, shown; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.ready=ch(2);
  d.start = ch(2);
  d.comb();
  if(m.phase==1){
    CHECK(!d.done, "done before the last word was accepted");
    if(d.valid){
      CHECK(d.payload==WORDS[m.pos], "payload %x, expected word %d = %x",(int)d.payload,m.pos,WORDS[m.pos]);
      CHECK(d.first==FIRST[m.pos], "first=%d at word %d, expected %d",(int)d.first,m.pos,FIRST[m.pos]);
      CHECK(d.last==LAST[m.pos], "last=%d at word %d, expected %d",(int)d.last,m.pos,LAST[m.pos]);
      m.wait=0; m.shown=1; COVERIF(d.start,"start while streaming");
      if(d.ready){ m.shown=0; if(m.pos==NW-1){ m.phase=2; m.pos=0; COVER("last"); } else m.pos++; } else COVER("stall");
    } else { CHECK(!m.shown, "an unaccepted word was withdrawn"); CHECK(++m.wait<=6, "no word offered"); }
  } else if(m.phase==2){
    CHECK(!d.valid, "a word is offered after the last one");
    if(d.done){ m.phase=0; m.wait=0; COVER("done"); } else CHECK(++m.wait<=4, "done is missing");
  } else {
    CHECK(!d.valid, "a word is offered without start");
    CHECK(!d.done, "done without a transmission");
    if(d.start){ m.phase=1; m.pos=0; m.wait=0; m.shown=0; COVER("start"); }
  }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.stream import StreamInterface
    from amlib.stream.generator import PacketListStreamer

    class T(StreamInterface):
        def __init__(self, **kw):
            kw.setdefault("payload_width", 12)
            super().__init__(**kw)

    lists = [[1], [2], [3], [4], [1, 1], [1, 2], [2, 1], [3, 1], [2, 2], [1, 1, 1], [1, 3, 1], [4, 2, 1], [2, 4, 2], [3, 5], [1, 1, 1, 1],
             [2, 1, 2, 1], [7, 1], [5, 3, 1, 1, 2], [3, 1, 4, 1, 5, 2]]
    lists += [[17], [8, 8], [1] * 9, [15, 1, 15, 1], [16, 16], [33], [1, 32, 2], [2] * 20, [257, 3], [300], [1] * 40, [2, 1, 1] * 100]
    if tier == "thorough":
        lists += [[a, b, c] for a in range(1, 5) for b in range(1, 5) for c in range(1, 5)] + [[16], [64, 1], [1] * 70]
    out = []
    for k, lens in enumerate(lists):
        for w in (8, 12, 16, 4, 0) if k < 12 else (8, 32) if sum(lens) > 15 else (8,):
            n, pk = 0, []
            msk = (1 << (w or 12)) - 1
            for l in lens:
                pk.append([(0x935 + (0x24d if w < 32 else 0x9e3779b1) * (n + i)) & msk for i in range(l)])
                n += l
            def build(pk=pk, w=w, k=k):
                src = [bytes(p) for p in pk] if w == 8 and k % 2 else [list(p) for p in pk]
                g = PacketListStreamer(src) if w == 8 else PacketListStreamer(src, data_width=w) if w else PacketListStreamer(src, stream_type=T)
                return g, {"start": g.start, "ready": g.stream.ready}, {"done": g.done, "valid": g.stream.valid, "first": g.stream.first,
                                                                        "last": g.stream.last, "payload": g.stream.payload}
            c = {"NW": n, "WLIST": ",".join(f"{x}u" for p in pk for x in p),
                 "FLIST": ",".join(str(int(i == 0)) for p in pk for i in range(len(p))),
                 "LLIST": ",".join(str(int(i == len(p) - 1)) for p in pk for i in range(len(p)))}
            out.append(Cfg(f"p{'_'.join(map(str, lens[:6]))}{'x%d' % len(lens) if len(lens) > 6 else ''}w{w}", build, CPP, c, covers=["start", "stall", "last", "done", "start while streaming"],
                           ntraces=2))
    return out

"""StreamSerializer against the limited prefix of its input array."""
from mc.runner import Cfg

ASSUMPTIONS = ["the array and max_length are stable while a stream is being sent (the array is read live)",
               "start is free in every cycle; it must be ignored from the cycle after an accepted start up to and including the done cycle"]

CPP = r"""
struct Mon { u16 pos, ml; u8 phase, wait, shown; ET data[N]; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.ready=ch(2);
  if(m.phase==0) { for(int i=0;i<N;i++) m.data[i]=0; m.ml=0; }
  d.start = ch(2);
  int ml=N;
  if(m.phase==0 && d.start){ if(BIG){ u32 x=ch(2)?~0u:0; for(int i=0;i<N;i++) m.data[i]=((i+1)*0x9E3779B1u^x)>>(32-BIG); } else for(int i=0;i<N;i++) m.data[i]=ch(1u<<DWE); 
#ifdef MLW
#if BIG
    { static const u32 MLA[]={0,1,2,N-1,N,N+1,(1u<<MLW)-1}; m.ml=MLA[ch(7)]&((1u<<MLW)-1); }
#else
    m.ml=ch(1u<<MLW);
#endif
#endif
  }
  SETDATA
#ifdef MLW
  d.max_length=m.ml; ml = m.ml<N ? m.ml : N;
#endif
  d.comb();
  if(m.phase==1){
    CHECK(!d.done, "done before the last word was accepted");
    if(d.valid){
      CHECK(d.payload==m.data[m.pos], "payload %x, expected element %d = %x",(int)d.payload,m.pos,(int)m.data[m.pos]);
      CHECK(d.first==(m.pos==0), "first=%d at word %d",(int)d.first,m.pos);
      CHECK(d.last==(m.pos==ml-1), "last=%d at word %d of %d",(int)d.last,m.pos,ml);
      m.wait=0; m.shown=1; COVERIF(d.start,"start while streaming");
      if(d.ready){ m.shown=0; if(m.pos==ml-1){ m.phase=2; m.pos=0; COVER("last"); } else { m.pos++; COVER("advance"); } } else COVER("stall");
    } else { CHECK(!m.shown, "an unaccepted word was withdrawn"); CHECK(++m.wait<=3, "no word offered"); }
  } else if(m.phase==2){
    CHECK(!d.valid, "a word is offered after the last one");
    if(d.done){ m.phase=0; m.wait=0; COVER("done"); } else CHECK(++m.wait<=3, "done is missing");
    if(d.done) { for(int i=0;i<N;i++) m.data[i]=0; m.ml=0; }
  } else {
    CHECK(!d.valid, "a word is offered without start");
    CHECK(!d.done, "done without a transmission");
    CHECK(!d.first && !d.last, "first or last flag without a word");
    if(d.start && ml>0){ m.phase=1; m.pos=0; m.wait=0; m.shown=0; }
  }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.stream import StreamInterface
    from amlib.stream.generator import StreamSerializer

    class T(StreamInterface):
        pass

    def mk(n, w, mlw, domain):
        def build():
            a = {}
            if w != 8:
                a["data_width"] = w
            if mlw:
                a["max_length_width"] = mlw
            if domain != "sync":
                a["domain"] = domain
                a["stream_type"] = T
            g = StreamSerializer(n, **a)
            ins = {"start": g.start, "ready": g.stream.ready, **{f"d{i}": g.data[i] for i in range(n)}}
            if mlw:
                ins["max_length"] = g.max_length
            return g, ins, {"done": g.done, "valid": g.stream.valid, "first": g.stream.first, "last": g.stream.last, "payload": g.stream.payload}
        return build
    out = []
    for n in (1, 2, 3, 4, 5, 8) + ((6, 7, 9) if tier == "thorough" else ()):
        for mlw in (None, 1, 2, 3, 4):
            w = 2 if n <= 4 else 1 if n < 8 else 1
            if n == 2 and mlw is None:
                w = 8
            dom = "usb" if n == 3 else "sync"
            out.append(Cfg(f"n{n}w{w}_ml{mlw}", mk(n, w, mlw, dom), CPP,
                           {"N": n, "DWE": w if w < 8 else 3, "BIG": 0, "ET": "u8", **({"MLW": mlw} if mlw else {}),
                            "SETDATA": "".join(f"d.d{i}=m.data[{i}];" for i in range(n))}, domains=(dom,),
                           covers=["last", "done", "stall", "start while streaming"] + (["advance"] if n > 1 and mlw != 1 else []), ntraces=3, cost=n))
    for n, w, mlw in [(9, 8, None), (16, 16, 5), (17, 8, 5), (17, 32, 6), (4, 16, 4), (33, 8, 6), (40, 12, 4), (5, 8, 8), (3, 32, None), (1, 16, 4), (300, 8, 9), (257, 9, None)] + \
            ([(100, 8, 8), (65, 24, 7)] if tier == "thorough" else []):
        out.append(Cfg(f"big_n{n}w{w}_ml{mlw}", mk(n, w, mlw, "sync"), CPP,
                       {"N": n, "DWE": 1, "BIG": w, "ET": "u32", **({"MLW": mlw} if mlw else {}), "SETDATA": "".join(f"d.d{i}=m.data[{i}];" for i in range(n))},
                       covers=["last", "done", "stall", "start while streaming"] + (["advance"] if n > 1 else []), ntraces=3))
    return out

"""ConstantStreamGenerator against the requested slice of its data."""
from mc.runner import Cfg

ASSUMPTIONS = ["max_length is stable while a stream is being generated (it is documented as a limit, not as sampled at start)",
               "a start position beyond the data means its last word (as the code comments say)",
               "start is free in every cycle; it must be ignored from the cycle after an accepted start up to and including the done cycle",
               "output_length is judged for bytes data only (for wide integer data its unit is unspecified)",
               "payload bits outside the valid bytes of a word are unspecified"]

CPP = r"""
static const u64 WORDS[NW]={WLIST};
// phase 0 idle, 1 streaming, 2 waiting for done
struct Mon { u8 phase, first, wait, shown; u16 pos, sent, ml; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int ones(unsigned v){ int n=0; while(v){ n+=v&1; v>>=1; } return n; }
static int step(D& d, Mon& m, Ch& ch){
  // environment
  d.ready=ch(2);
#ifdef SPA
  static const int SPS[]={SPA}; int sp = SPS[ch(sizeof SPS/sizeof*SPS)];
#else
  int sp = SPW ? ch(1u<<SPW) : 0;
#endif
  d.start_position = sp;
  int ml = 1<<20;
#ifdef MLW
#ifdef MLA
  static const int MLS[]={MLA};
  if(m.phase==0) ml = MLS[ch(sizeof MLS/sizeof*MLS)]; else
#else
  if(m.phase==0) ml = ch(1u<<MLW); else
#endif
  ml = m.ml;
  d.max_length = ml;
#endif
  d.start = ch(2);
  d.comb();
#if defined(MLW) && defined(BYTES)
  CHECK(d.output_length==(ml<BYTES?ml:BYTES), "output_length=%d, expected %d",(int)d.output_length, ml<BYTES?ml:BYTES);
#endif
  if(m.phase==1){
    CHECK(!d.done, "done before the last word was accepted");
    if(d.valid){
      bool last_data = m.pos==NW-1;
      int nb = last_data ? LASTB : BPW;
#ifdef MLW
      if(ml-m.sent < nb) nb = ml-m.sent;
      bool last = last_data || m.sent+BPW>=ml;
#else
      bool last = last_data;
#endif
      if(VW>1) CHECK(d.valid==(1u<<nb)-1, "valid mask %x, expected %d byte(s)",(int)d.valid,nb);
      u64 mask = (VW>1 ? nb*8 : DW)>=64 ? ~0ull : (1ull<<(VW>1 ? nb*8 : DW))-1;
      CHECK((d.payload&mask)==(WORDS[m.pos]&mask), "payload %llx, expected word %d = %llx",(unsigned long long)d.payload,m.pos,(unsigned long long)WORDS[m.pos]);
      CHECK(d.first==m.first, "first=%d at word %d, expected %d",(int)d.first,m.pos,m.first);
      CHECK(d.last==last, "last=%d at word %d, expected %d",(int)d.last,m.pos,last);
      m.wait=0; m.shown=1;
      COVERIF(d.start,"start while streaming");
      if(last){ COVER("last"); COVERIF(m.first,"single word"); }
      if(d.ready){
        m.first=0; m.shown=0; m.sent+=BPW;
        if(last){ m.phase=2; m.pos=0; m.sent=0; m.ml=0; } else { m.pos++; COVER("advance"); }
      } else COVER("stall");
    } else {
      CHECK(!m.shown, "an unaccepted word was withdrawn");
      CHECK(++m.wait<=3, "no word offered");
    }
  } else if(m.phase==2){
    CHECK(!d.valid, "a word is offered after the last one");
    if(d.done){ m.phase=0; m.wait=0; COVER("done"); COVERIF(d.start,"start in the done cycle"); }
    else CHECK(++m.wait<=3, "done is missing");
  } else {
    CHECK(!d.valid, "a word is offered without start");
    CHECK(!d.done, "done without a transmission");
    if(d.start && ml>0){ m.phase=1; m.pos = sp>=NW ? NW-1 : sp; m.first=1; m.sent=0; m.ml=ml>65535?65535:ml; m.wait=0;
      COVERIF(sp>=NW,"clamped"); }
  }
  tick(d);
  return OK_;
}
"""


def cfg(name, data, words, lastb, dw, vw, endian=None, mlw=None, domain="sync", use_dw=True, spa=None, mla=None, **kw):
    from amlib.stream import StreamInterface
    from amlib.stream.generator import ConstantStreamGenerator

    class T(StreamInterface):
        def __init__(self, payload_width=8):
            super().__init__(payload_width=payload_width, valid_width=vw)

    def build():
        a = {}
        if use_dw:
            a["data_width"] = dw
        if mlw:
            a["max_length_width"] = mlw
        if endian:
            a["data_endianness"] = endian
        if domain != "sync":
            a["domain"] = domain
        if vw > 1:
            a["stream_type"] = T
        g = ConstantStreamGenerator(data, **a)
        ins = {"start": g.start, "start_position": g.start_position, "ready": g.stream.ready}
        outs = {"done": g.done, "valid": g.stream.valid, "first": g.stream.first, "last": g.stream.last, "payload": g.stream.payload}
        if mlw:
            ins["max_length"] = g.max_length
            outs["output_length"] = g.output_length
        return g, ins, outs
    n = len(words)
    spw = (len(data) - 1).bit_length()
    c = {"NW": n, "WLIST": ",".join(hex(w) + "ull" for w in words), "SPW": spw, "BPW": (dw + 7) // 8, "LASTB": lastb, "DW": dw, "VW": vw}
    if spa:
        c["SPA"] = ",".join(map(str, spa))
    if mla:
        c["MLA"] = ",".join(map(str, mla))
    if mlw:
        c["MLW"] = mlw
    if isinstance(data, bytes):
        c["BYTES"] = len(data)
    cov = ["last", "done", "stall", "start while streaming"] + (["advance"] if n > 1 and (not mlw or (1 << mlw) - 1 > (dw + 7) // 8) else [])
    if (1 << spw) > n:
        cov.append("clamped")
    return Cfg(name, build, CPP, c, domains=(domain,), covers=cov, ntraces=3, **kw)


def configs(tier):
    out = []
    big = tier == "thorough"
    for n in (1, 2, 3, 4, 5, 6, 8) + ((7, 11, 16, 17) if big else ()):
        data = bytes((0x35 + 0x47 * i) & 0xff for i in range(n))
        for mlw in (None, 1, 2, 4) + ((5,) if big else ()):
            dom = "usb" if n == 3 else "sync"
            out.append(cfg(f"b{n}_ml{mlw}", data, list(data), 1, 8, 1, mlw=mlw, domain=dom, use_dw=bool(n & 1)))
        ints = [(5 + 7 * i) & 15 for i in range(n)]
        if n <= 5:
            out.append(cfg(f"i4_{n}", ints, ints, 1, 4, 1))
        ints = [(0x935 + 0x247 * i) & 0xfff for i in range(n)]
        if n in (1, 3, 4, 5):
            for mlw in (None, 3, 4):
                out.append(cfg(f"i12_{n}_ml{mlw}", ints, ints, 2, 12, 1, mlw=mlw))
    for bpw in (2, 4, 8) + ((3,) if big else ()):
        for n in (1, 2, 3, 4, 5, 7, 8, 9) + ((6, 10, 12, 13) if big else ()):
            data = bytes((0x35 + 0x47 * i) & 0xff for i in range(n))
            for endian in ("little", "big", None):
                if endian == "big" and n % bpw:
                    continue        # byte lanes of a partial big-endian word are unspecified
                words = [int.from_bytes(data[k:k + bpw], endian or "little") for k in range(0, n, bpw)]
                for vw in (1, bpw):
                    for mlw in (None, 4) + ((2, 3) if big else ()):
                        if endian == "big" and vw > 1:
                            continue
                        if endian is None and (vw == 1 or mlw):
                            continue
                        out.append(cfg(f"w{bpw * 8}_{n}{endian}_v{vw}_ml{mlw}", data, words, (n - 1) % bpw + 1, bpw * 8, vw,
                                       endian=endian, mlw=mlw))
    for n in (9, 15, 16, 17, 31, 32, 33, 64, 100, 129, 300) + ((255, 256, 257, 1000) if big else ()):
        data = bytes((0x35 + 0x47 * i + (i >> 3)) & 0xff for i in range(n))
        top = (1 << (n - 1).bit_length()) - 1
        spa = sorted({0, 1, n // 2, n - 2, n - 1, top})
        mla = sorted({0, 1, n // 2, n - 1, n, n + 1, 511, 1023})
        out.append(cfg(f"long_b{n}", data, list(data), 1, 8, 1, spa=spa))
        out.append(cfg(f"long_b{n}_ml", data, list(data), 1, 8, 1, mlw=10, spa=spa, mla=mla))
        w4 = [int.from_bytes(data[k:k + 4], "little") for k in range(0, n, 4)]
        out.append(cfg(f"long_w32_{n}", data, w4, (n - 1) % 4 + 1, 32, 4, endian="little", mlw=10, spa=sorted({0, 1, len(w4) - 1, len(w4), top}), mla=mla))
        ints = [(0x9E3779B1 * (i + 1) >> 8) & 0xffff for i in range(n)]
        out.append(cfg(f"long_i16_{n}", ints, ints, 2, 16, 1, spa=spa))
    ints = [0x11223344, 0x55667788, 0x99aabbcc]
    out.append(cfg("i32_3_v4", ints, ints, 4, 32, 4))
    out.append(cfg("i32_3_v4_ml4", ints, ints, 4, 32, 4, mlw=4))
    return out

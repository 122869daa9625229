"""Transactionalized FIFO against a list model with explicit commit / discard."""
from mc.runner import Cfg

ASSUMPTIONS = ["commit and discard of the same side are not strobed in the same cycle (undefined by the documentation)",
               "free data of at most 2 bits up to depth 8; wider data from two values per write; depth 8 and 9 (thorough 12) also with numbered entries and at most one write discard per history, depths 12 and 16 (thorough 32) with numbered entries and no write discards; depth 300 (thorough 512): sequences of 5 (thorough 7) bursts of three lengths, each followed by nothing, a commit or a discard"]

CPP = r"""
struct Mon { u32 q[DEPTH+1]; u8 nr, nc, nt, e, ep; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.comb();
  CHECK(d.empty == (m.nr==m.nc), "empty=%d but %d committed, %d read", (int)d.empty, m.nc, m.nr);
  CHECK(d.full == (m.nt==DEPTH), "full=%d with %d of %d entries used", (int)d.full, m.nt, DEPTH);
  CHECK(d.space_available == DEPTH-m.nt, "space_available=%d, expected %d", (int)d.space_available, DEPTH-m.nt);
  if(m.nr<m.nc) CHECK(d.read_data == m.q[m.nr], "read_data=%d, expected %d (not empty)", (int)d.read_data, m.q[m.nr]);
  int wop=ch(3), rop=ch(3);          // nothing / commit / discard
  d.write_commit = wop==1; d.write_discard = wop==2;
  d.read_commit = rop==1; d.read_discard = rop==2;
  d.read_en = ch(2); d.write_en = ch(2);
  if(SEQ){       // deep FIFOs: numbered entries, one write discard in a history
    if(wop==2 && (m.ep || SEQ==2)) { d.write_discard=0; wop=0; }
    d.write_data = (m.e+m.nt)%NUM | m.ep*NUM;
  } else d.write_data = !d.write_en ? 0 : WIDTH<4 ? ch(1<<WIDTH) : ((1u<<(WIDTH-1))|1)*ch(2);
  d.comb();
  CHECK(d.empty == (m.nr==m.nc) && d.full == (m.nt==DEPTH) && d.space_available == DEPTH-m.nt, "status outputs depend on strobes");
  if(m.nr<m.nc) CHECK(d.read_data == m.q[m.nr], "read_data depends on strobes");
  bool we=d.write_en && m.nt<DEPTH, re=d.read_en && m.nr<m.nc;
  COVERIF(m.nt==DEPTH,"full"); COVERIF(wop==2 && m.nt>m.nc,"write_discard"); COVERIF(rop==2 && m.nr>0,"read_discard");
  COVERIF(wop==1 && m.nt>m.nc,"write_commit"); COVERIF(rop==1 && m.nr>0,"read_commit"); COVERIF(re&&we,"rw");
  u8 nt=m.nt, nc=m.nc, nr=m.nr;
  if(we){ m.q[m.nt]=d.write_data; nt=m.nt+1; }
  if(wop==1) nc=m.nt;
  if(wop==2) nt=m.nc;
  if(re) nr=m.nr+1;
  int drop = rop==1 ? m.nr : 0;
  if(rop==2) nr=0;
  if(SEQ){ m.e=(m.e+drop)%NUM; if(wop==2) m.ep++; }
  nt-=drop; nc-=drop; nr-=drop;
  for(int i=0;i<=DEPTH;i++) m.q[i] = i<nt ? m.q[i+drop] : 0;
  m.nt=nt; m.nc=nc; m.nr=nr;
  tick(d);
  return OK_;
}
"""

# Deep FIFOs (pointers wider than eight bits): every sequence of up to NOPS bursts, each ended by nothing, a commit or a discard.
DEEP = r"""
struct Mon { u16 q[DEPTH+1]; u16 nr, nc, nt, e; u8 n; };
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int one(D& d, Mon& m, int we_, int re_, int wop, int rop){
  d.write_commit = wop==1; d.write_discard = wop==2; d.read_commit = rop==1; d.read_discard = rop==2;
  d.write_en=we_; d.read_en=re_; d.write_data = we_ ? m.e&((1<<WIDTH)-1) : 0;
  d.comb();
  CHECK(d.empty == (m.nr==m.nc), "empty=%d but %d committed, %d read", (int)d.empty, m.nc, m.nr);
  CHECK(d.full == (m.nt==DEPTH), "full=%d with %d of %d entries used", (int)d.full, m.nt, DEPTH);
  CHECK(d.space_available == DEPTH-m.nt, "space_available=%d, expected %d", (int)d.space_available, DEPTH-m.nt);
  if(m.nr<m.nc) CHECK(d.read_data == m.q[m.nr], "read_data=%d, expected %d (not empty)", (int)d.read_data, m.q[m.nr]);
  bool we=we_ && m.nt<DEPTH, re=re_ && m.nr<m.nc;
  u16 nt=m.nt, nc=m.nc, nr=m.nr;
  if(we){ m.q[m.nt]=d.write_data; nt=m.nt+1; m.e++; }
  if(wop==1) nc=m.nt;
  if(wop==2) nt=m.nc;
  if(re) nr=m.nr+1;
  int drop = rop==1 ? m.nr : 0;
  if(rop==2) nr=0;
  nt-=drop; nc-=drop; nr-=drop;
  if(drop || nt<m.nt) for(int i=0;i<=DEPTH;i++) m.q[i] = i<nt ? m.q[i+drop] : 0;
  m.nt=nt; m.nc=nc; m.nr=nr;
  COVERIF(m.nt==DEPTH,"full"); COVERIF(drop>=DEPTH,"everything consumed");
  tick(d);
  return OK_;
}
static int step(D& d, Mon& m, Ch& ch){
  if(m.n>=NOPS) return PRUNE_;
  m.n++;
  static const int K[]={1,DEPTH/2+3,DEPTH+1};
  int who=ch(3), k=K[ch(3)], end=ch(3);          // write / read / both
  for(int i=0;i<k;i++) RUN(one(d,m,who!=1,who!=0,0,0));
  if(end) RUN(one(d,m,0,0,who!=1?end:0,who!=0?end:0));
  RUN(one(d,m,0,0,0,0));
  return OK_;
}
"""


def configs(tier):
    from amlib.utils.fifo import TransactionalizedFIFO
    ins = "read_en read_commit read_discard write_data write_en write_commit write_discard".split()
    outs = "read_data empty full space_available".split()

    def mk(width, depth, domain):
        def build():
            f = TransactionalizedFIFO(width=width, depth=depth, domain=domain)
            return f, {n: getattr(f, n) for n in ins}, {n: getattr(f, n) for n in outs}
        return build
    out = []
    sizes = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (1, 5), (1, 6), (1, 7), (1, 8), (9, 2), (24, 1), (5, 8, 16), (7, 9, 36), (7, 12, 24), (6, 16, 32)]
    if tier == "thorough":
        sizes += [(2, 4), (16, 3), (8, 21, 42), (8, 32, 64)]
    for w, dp, *sq in sizes:
        dom = "usb" if (w, dp) == (1, 3) else "sync"
        out.append(Cfg(f"{'seq' if sq else ''}w{w}d{dp}{dom}", mk(w, dp, dom), CPP, {"WIDTH": w, "DEPTH": dp, "SEQ": (2 if dp > 9 + 3*(tier == "thorough") else 1) if sq else 0, "NUM": sq[0] if sq else 1}, domains=(dom,),
                       covers=["full"] + ["write_discard"]*(dp < 12) + ["read_discard", "write_commit", "read_commit"]
                       + (["rw"] if dp > 1 else []),
                       max_states=60_000_000, cost=dp))
    for w, dp in [(9, 300)] + [(10, 512)] * (tier == "thorough"):
        out.append(Cfg(f"deep_w{w}d{dp}", mk(w, dp, "sync"), DEEP, {"WIDTH": w, "DEPTH": dp, "NOPS": 7 if tier == "thorough" else 5}, covers=["full", "everything consumed"], ntraces=2, cost=9))
    return out

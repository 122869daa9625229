"""Timer against a countdown written from its documentation."""
from mc.runner import Cfg

ASSUMPTIONS = ["load_in / reload_in are sampled the cycle before start (they are registered while the timer is idle); "
               "a start with count zero and a start while running have no effect",
               "counter widths 2 and 3 with every load and reload value, 9 to 32 bits with a few of them"]

CPP = r"""
// seen: the count a start in this cycle would run (load/reload presented in the previous idle cycle)
#ifdef ALPHA
static const u32 AB[]={ALPHA};
#define PICK() AB[ch(sizeof AB/sizeof*AB)]
#else
#define PICK() ch(1<<W)
#endif
struct Mon { u32 seen, left; u8 idle; };
static int init(D& d, Mon& m, Ch& ch){ m.idle=1; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  d.comb();
  bool done = !m.idle && m.left==0;
  CHECK(d.done == done, "done=%d, expected %d (%d cycles left, idle=%d)", (int)d.done, done, m.left, m.idle);
  i64 load = CLOAD>=0 ? CLOAD : PICK(), reload = CRELOAD>=0 ? CRELOAD : PICK();
#ifndef FIXLOAD
  d.load_in=load;
#endif
#ifndef FIXRELOAD
  d.reload_in=reload;
#endif
  d.start=ch(2);
  d.comb();
  CHECK(d.done == done, "done depends on the inputs of the same cycle");
  COVERIF(done,"done"); COVERIF(done && reload,"reload");
  i64 count = load ? load : reload;
  if(m.idle){
    if(d.start && m.seen){ m.idle=0; m.left=m.seen-1; m.seen=0; COVERIF(m.left==0,"one"); }
    else m.seen=count;
  } else if(m.left){ m.left--; }
  else if(reload) m.left=reload-1;
  else if(RESTART){ m.idle=1; m.seen=0; COVER("restartable"); }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.utils import Timer

    def mk(w, load, reload, restart):
        def build():
            kw = dict(width=w)
            if load is not None:
                kw["load"] = load
            if reload is not None:
                kw["reload"] = reload
            if not restart:
                kw["allow_restart"] = False
            t = Timer(**kw)
            ins = {"start": t.start}
            if load is None:
                ins["load_in"] = t.load_in
            if reload is None:
                ins["reload_in"] = t.reload_in
            return t, ins, {"done": t.done}
        return build

    out = []

    def add(w, load, reload, restart, alpha=None):
        c = {"W": w, "CLOAD": -1 if load is None else load, "CRELOAD": -1 if reload is None else reload, "RESTART": restart}
        if alpha:
            c["ALPHA"] = ",".join(f"{x}u" for x in alpha)
        if load is not None:
            c["FIXLOAD"] = 1
        if reload is not None:
            c["FIXRELOAD"] = 1
        cov = [] if (load == 0 and reload == 0) else ["done"]
        if restart and reload in (None, 0) and cov:
            cov.append("restartable")
        if reload != 0:
            cov.append("reload")
        out.append(Cfg(f"w{w}_l{load}_r{reload}_{restart}", mk(w, load, reload, restart), CPP, c, covers=cov))
    for w in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ()):
        for restart in (1, 0):
            add(w, None, None, restart)
            for v in range(min(4, 1 << w)):
                add(w, v, None, restart)
                add(w, None, v, restart)
    for l in range(4):
        for r in range(4):
            add(3, l, r, 1)
    for restart in (1, 0):
        add(32, None, None, restart, alpha=(0, 1, 70000))
        add(32, 300, None, restart, alpha=(0, 2, 66000))
        add(9, None, 260, restart, alpha=(0, 1, 2, 5, 300, 511))
        add(20, 1000, 400, restart)
        add(16, None, None, restart, alpha=(0, 1, 3, 255, 256, 257, 32768, 65535))
        add(8, 255, 128, restart)
        add(8, None, 127, restart, alpha=(0, 1, 128, 254, 255))
        add(24, 65537, None, restart, alpha=(0, 1, 65536))
    return out

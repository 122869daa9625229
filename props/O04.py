"""PeripheralBridge: bus accesses at the addresses its memory map reports against the registers, windows and events requested of the peripheral."""
from mc.runner import Cfg, Broken

ASSUMPTIONS = ["the bus fabric (CSR multiplexer, Wishbone-CSR bridge, Wishbone decoder, memory map) is a stand-in for amaranth_soc, which is not installed here; "
               "what is judged is how amlib wires and parameterizes it",
               "granularity 8 (as documented); a register is accessed completely, in ascending order where it spans several bus words; register values, event levels "
               "change between accesses only; data patterns with another value in every register and byte; all sequences of up to 4 (thorough 6) accesses, of which at most 2 go to registers other than the event registers"]

CPP = r"""
typedef struct { u32 a, n, w; u8 r, wr, k; } Reg;          // byte address, bytes, width, access, kind (0 plain, 1 status, 2 pending, 3 enable)
static const Reg R[]={REGS};
#define NR ((int)(sizeof R/sizeof*R))
static const u32 WORDS[]={WORDLIST};                      // bus words touched by registers, and their neighbours inside the banks
static const int MODE[]={TMODE};
static u64 mask(int w){ return w>=64?~0ull:((1ull<<w)-1); }
static u64 pat(int p,int i){ u64 v=0; for(int k=0;k<8;k++) v|=(u64)(u8)(0x1d*(k+1)+0x35*i+(p?0x80:0))<<(8*k); return p==2?~v:v; }
struct Mon { u16 prev, pend, en; u8 np, ne; };
static u64 g_rd; static int g_rs[NR+1], g_ws[NR+1], g_wn, g_wo, g_acked; static u64 g_wd[NR+1]; static u32 g_wa, g_wsel, g_wwe; static u64 g_wdat;
static void drive(D& d,int p){ DRIVE }
static void watch(D& d){ WATCH }
static u64 wlane(u64 v,u32 sel){ u64 r=0; for(int i=0;i<NB;i++) if(sel>>i&1) r|=v&(0xffull<<(8*i)); return r; }
// one classic bus access; strobes seen are accumulated
static int access(D& d,u32 word,int we,u32 sel,u64 data,int wdelay){
  g_acked=0;
  for(int t=0;t<4*NB+12;t++){
    d.adr=word; d.we=we; d.sel=sel; d.dat_w=data; d.cyc=1; d.stb=1;
#if WINDOW
    d.w_ack=0; d.w_dat=0x123456789abcdefull;
#endif
    d.comb();
#if WINDOW
    if(d.w_cyc && d.w_stb && wdelay--==0){ d.w_ack=1; d.comb(); g_wn++; g_wa=d.w_adr; g_wsel=d.w_sel; g_wwe=d.w_we; g_wdat=d.w_datw; }
#endif
    watch(d);
    bool a=d.ack; if(a) g_rd=d.dat_r;
    tick(d);
    if(a){ g_acked=1; break; }
  }
  d.cyc=0; d.stb=0; d.we=0; d.sel=0;
#if WINDOW
  d.w_ack=0;
#endif
  d.comb(); CHECK(!d.ack,"acknowledge without a request"); watch(d); tick(d);
  return OK_;
}
static int init(D& d, Mon& m, Ch& ch){ return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  if(m.np+m.ne>=ACC) return PRUNE_;
  int op=ch(2*NR+(m.np<PACC?2*NWD+(WINDOW?2:0):0));
  if(m.np>=PACC && !R[op/2].k) return PRUNE_;
  u32 ev=m.prev;
  if(NEV){ int e=ch(NEV+1); if(e<NEV) ev^=1<<e; }
  int we=op&1, dp=ch(2), p=we?0:dp;
  u64 data= op<2*NR && R[op/2].k ? (dp?~0ull:0x5555555555555555ull) : pat(we?dp:0, op<2*NR?op/2:9);
  if(op<2*NR && R[op/2].k) m.ne++; else m.np++;
  d.cyc=0; d.stb=0; d.we=0; d.sel=0; d.adr=0; d.dat_w=0;
#if WINDOW
  d.w_ack=0; d.w_dat=0;
#endif
  drive(d,p); SETEV
  d.comb(); CHECK(!d.ack,"acknowledge without a request"); tick(d); d.comb(); tick(d);
  for(int i=0;i<NEV;i++){ u32 a=m.prev>>i&1,b=ev>>i&1; if(MODE[i]==0?b:MODE[i]==1?(!a&&b):(a&&!b)) m.pend|=1<<i; }
  m.prev=ev;
#if NEV
  d.comb(); CHECK(d.irq==((m.pend&m.en)!=0),"interrupt line %d with pending %d enabled %d",(int)d.irq,m.pend,m.en); COVERIF(d.irq,"irq");
#endif
  for(int i=0;i<NR;i++){ g_rs[i]=g_ws[i]=0; g_wd[i]=0; } g_wn=g_wo=0;
  if(op<2*NR){                            // one register
    int i=op/2; u64 v=data&mask(R[i].w), got=0;
    for(u32 w=R[i].a/NB; w<=(R[i].a+R[i].n-1)/NB; w++){
      u32 sel=0; u64 dw=0;
      for(int l=0;l<NB;l++){ u32 b=w*NB+l; if(b>=R[i].a && b<R[i].a+R[i].n){ sel|=1<<l; dw|=((v>>(8*(b-R[i].a)))&255)<<(8*l); } }
      int rc=access(d,w,we,sel,dw,0); if(rc!=OK_) return rc;
      CHECK(g_acked,"access to %s register %d at address 0x%x is never acknowledged",R[i].k?"event":"the",i,R[i].a);
      for(int l=0;l<NB;l++){ u32 b=w*NB+l; if(b>=R[i].a && b<R[i].a+R[i].n) got|=((g_rd>>(8*l))&255)<<(8*(b-R[i].a)); }
    }
    for(int j=0;j<NR;j++) if(!R[j].k){
      CHECK(g_rs[j]==(j==i&&!we&&R[i].r),"%d read strobes of register %d for a %s of register %d",g_rs[j],j,we?"write":"read",i);
      CHECK(g_ws[j]==(j==i&&we&&R[i].wr),"%d write strobes of register %d for a %s of register %d",g_ws[j],j,we?"write":"read",i);
    }
    if(we && R[i].wr && !R[i].k){ CHECK(g_wd[i]==v,"register %d written with %llx received %llx",i,(unsigned long long)v,(unsigned long long)g_wd[i]); COVER("register written"); }
    if(we && R[i].k==2){ m.pend&=~v; COVER("pending cleared"); }
    if(we && R[i].k==3) m.en=v;
    if(!we && R[i].r){
      u64 x= R[i].k==0 ? pat(p,i)&mask(R[i].w) : R[i].k==1 ? ev : R[i].k==2 ? m.pend : m.en;
      CHECK(got==x,"register %d at address 0x%x reads %llx, its value is %llx",i,R[i].a,(unsigned long long)got,(unsigned long long)x); COVER("register read");
    }
    CHECK(!g_wn,"register access reached the window");
  } else if(op<2*NR+2*NWD){               // one complete bus word: everything in it at once, nothing else
    int k=op-2*NR; u32 w=WORDS[k/2];
    int rc=access(d,w,we,(1<<NB)-1,data,0); if(rc!=OK_) return rc;
    CHECK(g_acked,"access to word 0x%x inside a register bank is never acknowledged",w);
    for(int j=0;j<NR;j++){
      bool in= R[j].a/NB==w && (R[j].a+R[j].n-1)/NB==w;
      u64 v=in?(data>>(8*(R[j].a%NB)))&mask(R[j].w):0, got=in?(g_rd>>(8*(R[j].a%NB)))&mask(8*R[j].n):0;
      if(!R[j].k){
        CHECK(g_rs[j]==(in&&!we&&R[j].r),"%d read strobes of register %d in a %s of word 0x%x",g_rs[j],j,we?"write":"read",w);
        CHECK(g_ws[j]==(in&&we&&R[j].wr),"%d write strobes of register %d in a %s of word 0x%x",g_ws[j],j,we?"write":"read",w);
        if(in&&we&&R[j].wr) CHECK(g_wd[j]==v,"register %d received %llx from a word write of %llx",j,(unsigned long long)g_wd[j],(unsigned long long)data);
      }
      if(in&&we&&R[j].k==2) m.pend&=~v;
      if(in&&we&&R[j].k==3) m.en=v;
      if(in&&!we&&R[j].r){ u64 x= R[j].k==0 ? pat(p,j)&mask(R[j].w) : R[j].k==1 ? ev : R[j].k==2 ? m.pend : m.en;
        CHECK(got==x,"register %d reads %llx in a word read, its value is %llx",j,(unsigned long long)got,(unsigned long long)x); }
    }
    CHECK(!g_wn,"register access reached the window");
  }
#if WINDOW
  else {
    static const u32 WA[]={0,1,WWORDS-1};
    u32 o=WA[ch(3)]; u32 sel=ch(2)?(1<<NB)-1:1; int dl=ch(2);
    int rc=access(d,WBASE/NB+o,we,sel,data,dl); if(rc!=OK_) return rc;
    CHECK(g_acked,"window access at address 0x%x is never acknowledged",WBASE+o*NB);
    CHECK(g_wn==1,"%d accesses arrived at the window",g_wn);
    CHECK(g_wa==o && g_wwe==(u32)we && g_wsel==sel,"window saw address %x sel %x we %d for address %x sel %x we %d",g_wa,g_wsel,g_wwe,o,sel,we);
    if(we) CHECK(wlane(g_wdat,sel)==wlane(data&mask(8*NB),sel),"window received other data");
    else CHECK(g_rd==(0x123456789abcdefull&mask(8*NB)),"window read returned %llx",(unsigned long long)g_rd);
    for(int j=0;j<NR;j++) if(!R[j].k) CHECK(!g_rs[j]&&!g_ws[j],"window access reached register %d",j);
    COVER("window access");
  }
#endif
  CHECK(!g_wo,"access reached another window");
  for(int i=0;i<NEV;i++) if(MODE[i]==0) m.pend|=(ev>>i&1)<<i;
#if NEV
  d.comb(); CHECK(d.irq==((m.pend&m.en)!=0),"interrupt line %d with pending %d enabled %d after an access",(int)d.irq,m.pend,m.en);
#endif
  return OK_;
}
"""


def fabric():
    import amaranth_soc
    amaranth_soc.FUNCTIONAL = True


def make(banks, windows, events, bridge, name="per"):
    """banks: (addr, alignment, [(width, access, addr, alignment)]) ; windows: (addr_width, addr) ; events: modes."""
    from amaranth import Elaboratable, Module
    from amlib.soc.peripheral import Peripheral

    class Per(Peripheral, Elaboratable):
        def __init__(self):
            super().__init__(name=name)
            self.regs, self.wins, self.evs = [], [], []
            for b, (addr, al, regs) in enumerate(banks):
                kw = {}
                if addr is not None:
                    kw["addr"] = addr
                if al is not None:
                    kw["alignment"] = al
                bank = self.csr_bank(**kw)
                for k, (w, acc, ra, ral) in enumerate(regs):
                    kw = {}
                    if ra is not None:
                        kw["addr"] = ra
                    if ral is not None:
                        kw["alignment"] = ral
                    self.regs.append((b, bank.csr(w, acc, name=f"r{b}_{k}", **kw)))
            for aw, addr in windows:
                self.wins.append(self.window(addr_width=aw, data_width=bridge["data_width"], granularity=8, **({} if addr is None else {"addr": addr})))
            for k, mode in enumerate(events):
                self.evs.append(self.event(mode=mode, name=f"e{k}"))
            self._bridge = self.bridge(granularity=8, **bridge)
            self.bus = self._bridge.bus
            if events:
                self.irq = self._bridge.irq

        def elaborate(self, platform):
            m = Module()
            m.submodules.bridge = self._bridge
            return m
    return Per()


def layout(p, banks, windows, events, bridge):
    """Addresses the memory map reports, checked against what was requested."""
    mm = p.bus.memory_map
    infos = list(mm.all_resources())
    al = bridge.get("alignment", 0)
    pos = {id(i.resource): i for i in infos}
    regs, k, n = [], 0, 0
    win = [(w, r) for w, r in mm.windows()]
    wpos = {}
    for w, (s, e, ratio) in win:
        for i in w.all_resources():
            wpos[id(i.resource)] = s
    for b, (addr, bal, rs) in enumerate(banks):
        last = -1
        for w, acc, ra, ral in rs:
            el = p.regs[k][1]
            k += 1
            if id(el) not in pos:
                raise Broken(f"register {k - 1} is not in the memory map of the bridge")
            i = pos[id(el)]
            base = wpos[id(el)]
            if addr is not None and base != addr:
                raise Broken(f"bank {b} requested at {addr:#x} is at {base:#x}")
            off = i.start - base
            if ra is not None and off != ra:
                raise Broken(f"register {k - 1} requested at {ra:#x} of its bank is at {off:#x}")
            a = max(ral if ral is not None else al, bal if bal is not None else al)
            if off % (1 << a):
                raise Broken(f"register {k - 1} at {off:#x} of its bank is not aligned to {1 << a}")
            if ra is None and off < last:
                raise Broken(f"register {k - 1} without an address is not placed after the one before")
            exp = -(-w // 8)
            exp = -(-exp // (1 << a)) << a
            if i.end - i.start != exp:
                raise Broken(f"register {k - 1} of {w} bits and alignment {a} occupies {i.end - i.start} bytes")
            if not str(i.name[-1]).endswith(f"r{b}_{len(regs) - n}"):
                raise Broken(f"register {k - 1} is called {i.name}")
            last = off
            regs.append((i.start, -(-w // 8), w, "r" in acc, "w" in acc, 0))
        n = len(regs)
    if len(events):
        ev = sorted((i for i in infos if id(i.resource) not in {id(e) for _, e in p.regs}), key=lambda i: i.start)
        ev = [i for i in ev if hasattr(i.resource, "access")]
        names = [str(i.name[-1]).rsplit("_", 1)[-1] for i in ev]
        if names != ["status", "pending", "enable"]:
            raise Broken(f"event registers in the memory map: {names}")
        for i, kind in zip(ev, (1, 2, 3)):
            if i.start % (1 << al):
                raise Broken(f"event register at {i.start:#x} is not aligned to {1 << al}")
            regs.append((i.start, -(-len(events) // 8), len(events), True, kind > 1, kind))
    elif p._bridge.irq is not None:
        raise Broken("interrupt line without events")
    nb = bridge["data_width"] // 8
    words = set()
    for w, (s, e, ratio) in win:
        if any(w is x.memory_map for x in p.wins):
            continue
        extent = max(r[0] + r[1] - s for r in regs if s <= r[0] < e)
        if extent > nb // 2:        # (the CSR bridge repeats a bank shorter than its bus word)
            words |= {x for x in range(s // nb, e // nb)}
    # words that contain a register only partly are left to the register accesses
    words = [w for w in sorted(words) if all(r[0] // nb == (r[0] + r[1] - 1) // nb or not (r[0] // nb <= w <= (r[0] + r[1] - 1) // nb) for r in regs)]
    wb = []
    for x, (aw, addr) in zip(p.wins, windows):
        hit = [r for w, r in win if w is x.memory_map]
        if not hit:
            raise Broken("window is not in the memory map of the bridge")
        wb.append(hit[0][0])
        if addr is not None and wb[-1] != addr:
            raise Broken(f"window requested at {addr:#x} is at {wb[-1]:#x}")
        if hit[0][1] - wb[-1] < (nb << aw):
            raise Broken(f"window of {nb << aw} bytes occupies {hit[0][1] - wb[-1]}")
        if wb[-1] % (1 << al):
            raise Broken(f"window at {wb[-1]:#x} is not aligned to {1 << al}")
    return regs, words, wb


def configs(tier):
    out = []

    def add(name, banks, windows=(), events=(), data_width=32, alignment=0, which=0, acc=4 if tier == "quick" else 6):
        bridge = {"data_width": data_width, "alignment": alignment}
        try:
            fabric()
            regs, words, wb = layout(make(banks, windows, events, bridge), banks, windows, events, bridge)
        except Exception:       # build() meets the same problem and reports it
            regs, words, wb = [(0, 1, 1, True, True, 0)], [0], [0] * 9
        nb = data_width // 8

        def build():
            fabric()
            p = make(banks, windows, events, bridge)
            layout(p, banks, windows, events, bridge)
            b = p.bus
            ins = {"adr": b.adr, "dat_w": b.dat_w, "sel": b.sel, "cyc": b.cyc, "stb": b.stb, "we": b.we}
            outs = {"dat_r": b.dat_r, "ack": b.ack}
            for i, (_, e) in enumerate(p.regs):
                if e.access.readable():
                    ins[f"r{i}_d"] = e.r_data
                    outs[f"r{i}_rs"] = e.r_stb
                if e.access.writable():
                    outs[f"r{i}_wd"] = e.w_data
                    outs[f"r{i}_ws"] = e.w_stb
            for i, x in enumerate(p.wins):
                if i != which:
                    outs[f"o{i}_cyc"] = x.cyc
                    outs[f"o{i}_stb"] = x.stb
                    continue
                ins.update(w_ack=x.ack, w_dat=x.dat_r)
                outs.update(w_cyc=x.cyc, w_stb=x.stb, w_adr=x.adr, w_sel=x.sel, w_we=x.we, w_datw=x.dat_w)
            for i, e in enumerate(p.evs):
                ins[f"e{i}"] = e.stb
            if events:
                outs["irq"] = p.irq
            return p, ins, outs
        flat = [r for _, _, rs in banks for r in rs]
        drive = "".join(f"d.r{i}_d=pat(p,{i})&mask({r[0]}); " for i, r in enumerate(flat) if "r" in r[1])
        watch = "".join((f"g_rs[{i}]+=d.r{i}_rs; " if "r" in r[1] else "") + (f"if(d.r{i}_ws){{ g_ws[{i}]++; g_wd[{i}]=d.r{i}_wd; }} " if "w" in r[1] else "") for i, r in enumerate(flat))
        watch += "".join(f"g_wo|=d.o{i}_cyc&&d.o{i}_stb; " for i in range(len(windows)) if i != which)
        cpp = CPP.replace("DRIVE", drive, 1).replace("WATCH", watch, 1).replace("SETEV", "".join(f"d.e{i}=ev>>{i}&1; " for i in range(len(events))))
        cov = ["register read"] + (["register written"] if any("w" in r[1] for r in flat) else []) + (["irq", "pending cleared"] if events else []) + (["window access"] if windows else [])
        out.append(Cfg(name, build, cpp, {"REGS": ",".join("{%d,%d,%d,%d,%d,%d}" % (a, n, w, int(r), int(wr), k) for a, n, w, r, wr, k in regs),
                                          "WORDLIST": ",".join(map(str, words or [0])), "TMODE": ",".join(str(("level", "rise", "fall").index(e)) for e in events) or "0",
                                          "NWD": len(words), "ACC": acc, "PACC": 2, "NEV": len(events), "NB": nb, "WINDOW": int(bool(windows)), "WBASE": wb[which] if windows else 0, "WWORDS": 1 << windows[which][0] if windows else 1},
                       covers=cov, ntraces=3, max_states=3_000_000))
    R = lambda w, acc="rw", a=None, al=None: (w, acc, a, al)
    add("doc", [(None, None, [R(8, "r"), R(8, "w")])], events=["rise"], alignment=2)
    add("packed", [(None, None, [R(8), R(3), R(12), R(1, "w")])])
    add("wide", [(None, None, [R(1), R(33), R(24, "r"), R(64, "w")])])
    add("aligned", [(None, None, [R(1), R(16), R(9, "r"), R(32)])], alignment=2, events=["level", "rise", "fall"], acc=3 if tier == "quick" else 5)
    add("reg_addr", [(None, None, [R(8, "rw", 4), R(8), R(16, "rw", 1), R(5, "r", 12)])])
    add("reg_addr_zero", [(None, None, [R(8, "rw", 4), R(8, "rw", 0), R(16, "r", 2)])])
    add("bank_addr_zero", [(0x10, None, [R(8), R(8, "r")]), (0, None, [R(16), R(8, "w")]), (None, None, [R(4)])], alignment=2)
    add("window_addr_zero", [(0x40, None, [R(8), R(8)])], windows=[(2, 0x20), (1, 0)], which=1)
    add("reg_alignment", [(None, None, [R(8), R(8, "rw", None, 2), R(8), R(8, "rw", None, 3)])])
    add("two_banks", [(None, None, [R(8), R(8, "r")]), (None, None, [R(16, "w"), R(8)])], events=["level"])
    add("bank_addr", [(0x20, None, [R(8), R(8, "r")]), (0x10, None, [R(16), R(8, "w")]), (None, None, [R(4)])], alignment=2)
    add("bank_alignment", [(None, 3, [R(8), R(8, "rw")]), (None, None, [R(8), R(8, "rw", None, 1)])])
    add("bank_alignment_zero", [(None, 0, [R(8), R(8)])], alignment=2)
    add("window", [(None, None, [R(8)])], windows=[(2, None)], events=["fall"], alignment=0)
    add("window_addr", [(None, None, [R(8), R(8)])], windows=[(3, 0x40)], alignment=2)
    add("two_windows", [(None, None, [R(8, "r")])], windows=[(1, 0x80), (2, None)], events=["rise", "level"])
    add("two_windows_second", [(None, None, [R(8, "r")])], windows=[(1, 0x80), (2, None)], which=1)
    add("aligned_windows", [(None, None, [R(8), R(8)])], windows=[(0, None), (1, None)], which=1, alignment=4)
    add("reg_less_aligned", [(None, None, [R(8, "rw", None, 0), R(8, "rw", None, 1), R(8)])], alignment=2)
    add("nine_events", [(None, None, [R(8)])], events=(["rise", "fall", "level"] * 3), alignment=0, acc=2)
    add("byte_bus", [(None, None, [R(8), R(16), R(3, "r")])], data_width=8, events=["rise"])
    add("half_bus", [(None, None, [R(8), R(16), R(24, "rw")])], data_width=16, events=["level", "fall"], alignment=1)
    add("many_events", [(None, None, [R(8)])], events=["level", "rise", "fall", "rise"], data_width=8)
    add("wide_data", [(None, None, [R(8), R(40), R(16, "r")])], data_width=64, alignment=3, events=["rise"])
    if tier == "thorough":
        add("t_mix", [(0x40, 1, [R(8), R(8, "rw", 8), R(24)]), (None, None, [R(16, "w"), R(9)])], windows=[(2, 0x100)], events=["rise", "fall", "level"], alignment=2, acc=4)
        add("t_events", [(None, None, [R(8), R(5)])], events=["level", "rise", "fall", "rise", "level"], alignment=2, acc=3)
        add("t_nine_events", [(None, None, [R(8)])], events=["rise", "fall"] * 4 + ["rise"], alignment=0, acc=3)
    return out

"""SPIRegisterInterface: every transaction sequence (with aborts) against a register-file reference."""
from mc.runner import Cfg, PyCfg
from mc.spidev import CPP as SPI

ASSUMPTIONS = ["SPI timing as in I09", "a deselection in the two cycles after the final edge of a word may or may not still complete the access",
               "the signals behind read-only registers change only while deselected", "reads of the word answered to a write command are not judged apart from being the register's value"]

CPP = SPI + r"""
#define AM ((1u<<AS)-1)
#define WM ((u32)((1ull<<WS)-1))
#ifdef CMDS
static const u32 CM[]={CMDS}, WD[]={WORDS};
#endif
struct Mon { Spi s; u32 cmd, w, reg1, reg3, ro, resp; u64 plan; u8 pend, age, opt, done; u8 chg; };
static int init(D& d, Mon& m, Ch& ch){ m.s.cnt=6; m.reg1=RESET1; m.reg3=0; m.chg=1; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
#ifdef CMDS
  int ev=spi_env(d, m.s, ch, m.s.n<NB ? (int)(m.plan>>(NB-1-m.s.n)&1) : -1); Spi& s=m.s;
  if(ev==EV_SELECT) m.plan=(u64)CM[ch(sizeof CM/sizeof*CM)]<<WS | WD[ch(sizeof WD/sizeof*WD)];
  if(ev==EV_DROP) m.plan=0;
#else
  int ev=spi_env(d, m.s, ch, -1); Spi& s=m.s;
#endif
  if(ev==EV_SELECT){ m.cmd=m.w=0; m.done=0; m.resp=0; m.chg=1; }
  if(!s.sel && m.chg && s.relage==4){ m.chg=0; m.ro=ch(2)? WM&ROA : WM&ROB; }
  d.ro=m.ro; d.comb();
  u32 a=m.cmd&AM; bool wr=(m.cmd>>AS)&1;
  if(s.sel && s.n>=AS+1 && s.n<NB && (ev==EV_FALL || (s.seg==HIGH && s.cnt<=1))) {}
  if(s.sel && s.n>=AS+1 && ((ev==EV_FALL && s.n>AS+1 && s.n<=NB) || (s.seg==HIGH && s.cnt<=1 && s.n<NB))){
    int k = ev==EV_FALL ? s.n-1-(AS+1) : s.n-(AS+1);
    CHECK(d.spi__sdo==((m.resp>>(WS-1-k))&1), "bit %d read from address %d is %d, the value is %x", k, a, (int)d.spi__sdo, m.resp);
  }
  if(ev==EV_FALL){
    if(s.n<=AS+1) m.cmd=(m.cmd<<1|s.bit); else if(s.n<=NB) m.w=(m.w<<1|s.bit)&WM;
    if(s.n==AS+1){ a=m.cmd&AM; m.resp = a==0 ? (AUTO? WM : DEF) : a==1 ? m.reg1 : a==2 ? m.ro : (a==3 && HAVE3)? m.reg3 : DEF; }
    if(s.n==NB){ m.pend=1; m.age=0; }
  }
  if(ev==EV_DROP){ if(m.pend && s.age<=2) m.opt=1; COVERIF(s.n>AS+1 && s.n<NB && wr && a==1,"aborted write"); COVERIF(s.n && s.n<AS+1,"aborted command"); }
  int strobes=d.ws1+d.rs1+d.rs2+(HAVE3? d.ws3+d.rs3:0);
  CHECK(strobes<=1,"several strobes at once");
  if(d.word_strobe){}   // internal completion, informational
  bool reported=false;
  if(strobes){
    CHECK(m.pend,"access strobe without a complete transaction");
    u32 want = wr ? (d.ws1?1:d.ws3?3:99) : (d.rs1?1:d.rs2?2:d.rs3?3:99);
    CHECK(want==a,"strobe of another register or direction (address %d, %s)",a,wr?"write":"read");
    reported=true; m.pend=0; m.age=0; m.opt=0; m.done=1;
    COVERIF(wr&&a==1,"write"); COVERIF(!wr&&a==1,"read"); COVERIF(!wr&&a==2,"read only"); COVERIF(wr&&a==3&&HAVE3,"write 3");
    if(d.ws3) CHECK(d.wsig3==m.w,"write signal shows %x, %x was written",(int)d.wsig3,m.w);
  } else if(m.pend){
    bool has = (a==1) || (a==2 && !wr) || (a==3 && HAVE3);
    if(++m.age>5){ if(has) CHECK(m.opt,"no strobe for a complete %s of address %d",wr?"write":"read",a); COVERIF(!has,"unknown register"); m.pend=0; m.age=0; m.opt=0; m.done=1; }
  }
  CHECK(d.reg1==m.reg1,"register 1 is %x, expected %x",(int)d.reg1,m.reg1);
  CHECK(!(d.idle&&d.stalled),"idle and stalled");
  if(!s.sel && s.seg==DESEL && s.relage>=4) CHECK(d.idle,"not idle although deselected");
  if(s.sel && s.relage>=3){ CHECK(!d.idle,"idle although selected"); if(m.done && m.s.age>=6) CHECK(d.stalled,"not stalled after the transaction"); if(s.n<NB) CHECK(!d.stalled,"stalled within the transaction"); }
  if(reported && wr && a==1) m.reg1=m.w&R1M;
  if(reported && wr && a==3) m.reg3=m.w;
  tick(d);
  return OK_;
}
"""


def conflicts(tier):
    """Every ordered pair of registrations at equal or different addresses: the second at an address in use is refused."""
    from amaranth import Signal
    from amlib.io.spi import SPIRegisterInterface
    kinds = {
        "sfr": lambda t, a: t.add_sfr(a, read=Signal(8), write_signal=Signal(8), write_strobe=Signal()),
        "ro": lambda t, a: t.add_read_only_register(a, read=Signal(8)),
        "const": lambda t, a: t.add_read_only_register(a, read=3),
        "reg": lambda t, a: t.add_register(a, size=8),
    }
    n = 0
    for auto in (False, True):
        for k1, f1 in kinds.items():
            for k2, f2 in kinds.items():
                for a1 in (1, 2):
                    for a2 in (0, 1, 2):
                        t = SPIRegisterInterface(address_size=2, register_size=8, support_size_autonegotiation=auto)
                        f1(t, a1)
                        n += 1
                        try:
                            f2(t, a2)
                            refused = False
                        except ValueError:
                            refused = True
                        want = a1 == a2 or (auto and a2 == 0)
                        if refused != want:
                            return dict(states=n, transitions=n, violations=[("conflict", f"{k2} register at address {a2} after a {k1} register at {a1} (auto-negotiation {auto}): {'refused' if refused else 'accepted'}")])
    return dict(states=n, transitions=n)


def configs(tier):
    from amaranth import Module, Record, Signal
    from amlib.io.spi import SPIRegisterInterface

    def mk(as_, ws, defv, auto, have3, reset1, size1, res, own, chain):
        def build():
            t = SPIRegisterInterface(address_size=as_, register_size=ws, default_read_value=defv, support_size_autonegotiation=auto)
            n = lambda x, w=1: Signal(w, name=x)
            ws1, rs1, rs2, ws3, rs3, wsig3, ro = n("ws1"), n("rs1"), n("rs2"), n("ws3"), n("rs3"), n("wsig3", ws), n("ro", ws)
            order = [1, 2, 3] if not chain else [3, 2, 1]
            m = Module()
            for a in order:
                if a == 1:
                    if own:
                        reg1 = Signal(ws, name="myreg", reset=reset1)
                        r = t.add_register(1, value_signal=reg1, read_strobe=rs1, write_strobe=ws1)
                        assert r is reg1
                    else:
                        reg1 = t.add_register(1, size=size1, reset=reset1, read_strobe=rs1, write_strobe=ws1)
                elif a == 2:
                    t.add_read_only_register(2, read=ro, read_strobe=rs2)
                elif have3:
                    stored = Signal(ws, name="stored")
                    t.add_sfr(3, read=stored, write_signal=wsig3, write_strobe=ws3, read_strobe=rs3)
                    with m.If(ws3):
                        m.d.sync += stored.eq(wsig3)
            m.submodules.dut = t
            spi = dict(sck=t.spi.sck, sdi=t.spi.sdi, cs=t.spi.cs, sdo=t.spi.sdo)
            if res:
                r = Record([("clk", [("i", 1)]), ("copi", [("i", 1)]), ("cipo", [("o", 1)]), ("cs", [("i", 1)])])
                m.d.comb += t.connect_to_resource(r)
                spi = dict(sck=r.clk.i, sdi=r.copi.i, cs=r.cs.i, sdo=r.cipo.o)
            ins = {"spi__" + k: spi[k] for k in ("sck", "sdi", "cs")}
            ins["ro"] = ro
            if not have3:
                for x in (ws3, rs3, wsig3):
                    m.d.comb += x.eq(0)
            outs = dict(spi__sdo=spi["sdo"], ws1=ws1, rs1=rs1, rs2=rs2, ws3=ws3, rs3=rs3, wsig3=wsig3, reg1=reg1, idle=t.idle, stalled=t.stalled,
                        word_strobe=t.interface.word_complete)
            return m, ins, outs
        return build
    out = []

    def add(name, as_=2, ws=3, defv=0, auto=True, have3=True, reset1=0, size1=None, res=False, own=False, chain=False, cov=(), **kw):
        c = dict({"ABORT": 0, "FOREIGN": 0, "JIT": 0, "HALF": 4, "SU": 3, "GAP": 6, "EXTRA": 1, "ROA": 5, "ROB": 2}, AS=as_, WS=ws, NB=as_ + 1 + ws,
                 DEF=f"{defv}u", AUTO=int(auto), HAVE3=int(have3), RESET1=f"{reset1}u", R1M=f"{(1 << (size1 or ws)) - 1}u", **kw)
        cv = ["selected", "write", "read", "read only", "unknown register"] + (["write 3"] if have3 else []) + list(cov)
        out.append(Cfg(name, mk(as_, ws, defv, auto, have3, reset1, size1, res, own, chain), CPP, c, covers=cv, ntraces=4, max_states=40_000_000, cost=2))
    add("a2w3", defv=5, reset1=6, cov=["extra clocks"])
    add("a2w2_abort", ws=2, defv=1, reset1=2, ABORT=1, EXTRA=0, cov=["aborted write", "aborted command"])
    add("a2w3_noauto", defv=2, auto=False, have3=False, own=True, reset1=1)
    add("a3w2_own", as_=3, ws=2, defv=2, own=True, reset1=3, chain=True)
    add("narrow", ws=3, size1=2, reset1=1, have3=False)
    add("resource", ws=2, defv=1, res=True)
    wide = dict(EXTRA=0, ROA="0x80c1e001u", ROB="0x7f3e1ffeu", WORDS="0xa5c30f96u,0x00010000u")
    add("a15w32", as_=15, ws=32, defv=0xdeadbeef, reset1=0xc3a50ff1, CMDS="0x8001,1,2,0x8003,0,0x4001,0xc001,3", **wide)
    add("a15w32_noauto", as_=15, ws=32, defv=0x80000001, auto=False, reset1=0x1ff, size1=9, CMDS="0x8001,1,2,0x8003,0,0x2001,0xa001,3,0x4002", **wide)
    out.append(PyCfg("address_conflicts", conflicts))
    add("a7w8", as_=7, ws=8, defv=0x81, reset1=0xc3, CMDS="0x81,1,2,0x83,0,0x41,0xc1,3,0x7f", **dict(wide, ROA="0x9eu", ROB="0x61u", WORDS="0xa5u,0x3cu,0x01u"))
    add("a4w9_abort", as_=4, ws=9, defv=0x101, reset1=0x1a5, ABORT=1, have3=False, CMDS="0x11,1,2,0x19", cov=["aborted write", "aborted command"], **dict(wide, ROA="0x101u", ROB="0x0f0u", WORDS="0x15fu"))
    add("a4w24", as_=4, ws=24, defv=0x800001, reset1=0xc3a5, size1=17, CMDS="0x11,1,2,0x13,0,0x9,3,0xf", **dict(wide, ROA="0x9e0183u", ROB="0x61f07eu", WORDS="0xa50f33u,0x5af0ccu"))
    if tier == "thorough":
        add("t_a2w3_abort", ws=3, defv=5, reset1=2, have3=False, ABORT=1, EXTRA=1, cov=["aborted write", "aborted command"])
        add("t_a3w3", as_=3, ws=3, defv=6, reset1=1)
        add("t_a2w4", ws=4, defv=9, reset1=10, own=True)
    return out

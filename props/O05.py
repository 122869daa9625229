"""SimpleSoC: accesses from both processor buses against an address-level reference; address maps, C header (compiled and executed) and linker
script of every short sequence of add operations."""
import io
import itertools
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from mc.runner import Cfg, PyCfg, Broken
from props.O04 import fabric, make

ASSUMPTIONS = ["processor, interrupt controller and bus fabric are stand-ins for minerva, lambdasoc and amaranth_soc (not installed here): the processor's buses are free; "
               "what is judged is how amlib wires, numbers, places and describes the parts",
               "resources with distinct names (two memories added without a name share one, their header entries are not judged); the BIOS build is not run",
               "bus: all sequences of up to 3 (thorough 4 where few resources allow) rounds of accesses, alone and simultaneously from both buses, first and last word of every resource; memories of 16 to 32 bytes",
               "header: registers up to 64 bits; an accessor is required for registers of 1, 2 or 4 bytes"]

CPP = r"""
typedef struct { u32 a; u8 kind, idx; u32 init; } Tgt;      // word address; kind 0 rom, 1 ram, 2 register rw, 3 event pending, 4 event enable, 5 event status
static const Tgt T[]={TARGETS};
#define NT ((int)(sizeof T/sizeof*T))
static const u8 PEV[]={PEVENTS};                            // events of each interrupting peripheral, in order of addition
struct Mon { u32 mem[NT]; u8 ev[NP], prev[NP], pend[NP], en[NP], n; };
static int init(D& d, Mon& m, Ch& ch){ for(int i=0;i<NT;i++) m.mem[i]=T[i].init; return OK_; }
static u32 lanes(u32 s){ u32 r=0; for(int i=0;i<4;i++) if(s>>i&1) r|=0xffu<<(8*i); return r; }
static int irqs(D& d,Mon& m){ u32 x=0; for(int p=0;p<NIRQ;p++) if(m.pend[p]&m.en[p]) x|=1u<<p; CHECK(d.ip==x,"interrupt inputs %x, expected %x",(u32)d.ip,x); COVERIF(x,"interrupt"); return OK_; }
static u32 value(Mon& m,int t){ const Tgt&g=T[t]; return g.kind<2?m.mem[t]: g.kind==2?0x11223344u*(g.idx+1)&REGMASK: g.kind==3?m.pend[g.idx]: g.kind==4?m.en[g.idx]: m.ev[g.idx]; }
static int g_ws[NREG+1]; static u32 g_wd[NREG+1];
static int step(D& d, Mon& m, Ch& ch){
  if(m.n>=ACC) return PRUNE_;
  m.n++;
  d.i_cyc=d.i_stb=d.d_cyc=d.d_stb=0; d.i_we=d.d_we=0; d.i_adr=d.d_adr=0; d.i_sel=d.d_sel=0; d.i_datw=d.d_datw=0;
  SETREG
  if(NIRQ){ int e=ch(NIRQ+1); if(e<NIRQ) m.ev[e]^=PEV[e]>1?2:1; }
  SETEV
  d.comb(); CHECK(!d.i_ack && !d.d_ack,"acknowledge without a request"); tick(d); d.comb(); tick(d);
  for(int p=0;p<NIRQ;p++) m.pend[p]|=m.ev[p];               // level events
  d.comb(); if(irqs(d,m)==VIOL_) return VIOL_;
  int who=1+ch(3);           // bit 0: instruction bus, bit 1: data bus
  int t[2]={-1,-1}; int we[2]={0,0}; u32 sel[2]={15,15}, dat[2]={0,0}, got[2]={0,0}; int ack[2]={0,0};
  for(int b=0;b<2;b++) if(who>>b&1){ t[b]=ch(NT); we[b]= who==3 && b==0 ? 0 : ch(2); int k=T[t[b]].kind;
    if(we[b]){ dat[b]= k>=3 ? (ch(2)?3:1) : ch(2)?0xa1b2c3d4u:0x5e6f7081u; if(k<2 && who!=3) sel[b]= ch(2)?15:ch(2)?2:12; } }
  if(who==3 && (T[t[0]].a==T[t[1]].a && (we[0]||we[1]))) return PRUNE_;
  for(int i=0;i<NREG;i++){ g_ws[i]=0; g_wd[i]=0; }
  for(int c=0;c<40;c++){
    int a0=(who&1)&&!ack[0], a1=(who>>1)&&!ack[1];
    d.i_cyc=d.i_stb=a0; d.d_cyc=d.d_stb=a1;
    d.i_adr=a0?T[t[0]].a:0; d.i_we=a0?we[0]:0; d.i_sel=a0?sel[0]:0; d.i_datw=a0?dat[0]:0;
    d.d_adr=a1?T[t[1]].a:0; d.d_we=a1?we[1]:0; d.d_sel=a1?sel[1]:0; d.d_datw=a1?dat[1]:0;
    d.comb();
    WATCH
    if(c==39) break;
    if(!a0) CHECK(!d.i_ack,"instruction bus acknowledged without a request");
    if(!a1) CHECK(!d.d_ack,"data bus acknowledged without a request");
    int e0=a0&&d.i_ack, e1=a1&&d.d_ack;
    if(e0){ ack[0]=1; got[0]=d.i_datr; } if(e1){ ack[1]=1; got[1]=d.d_datr; }
    bool idle=!a0&&!a1; tick(d);
    if(idle && c>2) { d.comb(); WATCH break; }
  }
  for(int b=0;b<2;b++) if(who>>b&1){
    const Tgt& g=T[t[b]];
    CHECK(ack[b],"%s access at address 0x%x is never acknowledged",b?"data":"instruction",g.a*4);
    if(!we[b]) { u32 x=value(m,t[b]); CHECK((got[b]&(g.kind==2?REGMASK:g.kind>2?7u:~0u))==x,"read at address 0x%x returned %x, expected %x",g.a*4,got[b],x); COVER("read"); if(who==3) COVER("simultaneous"); }
  }
  for(int b=0;b<2;b++) if((who>>b&1) && we[b]){
    const Tgt& g=T[t[b]]; u32 l=lanes(sel[b]);
    if(g.kind==1){ u32 v=(m.mem[t[b]]&~l)|(dat[b]&l); for(int i=0;i<NT;i++) if(T[i].kind==1&&T[i].a==g.a) m.mem[i]=v; COVER("memory written"); }
    if(g.kind==0) COVER("write to read-only memory");
    if(g.kind==3) m.pend[g.idx]&=~dat[b];
    if(g.kind==4){ m.en[g.idx]=dat[b]&((1<<PEV[g.idx])-1); }
  }
  for(int i=0;i<NREG;i++){ int x=0; u32 v=0; for(int b=0;b<2;b++) if((who>>b&1)&&we[b]&&T[t[b]].kind==2&&T[t[b]].idx==i){ x++; v=dat[b]&REGMASK; }
    CHECK(g_ws[i]==x,"%d writes of register %d, strobed %d times",x,i,g_ws[i]); if(x){ CHECK(g_wd[i]==v,"register %d received %x, written %x",i,g_wd[i],v); COVER("register written"); } }
  for(int p=0;p<NIRQ;p++) m.pend[p]|=m.ev[p];
  d.i_cyc=d.i_stb=d.d_cyc=d.d_stb=0; d.comb();
  return irqs(d,m);
}
"""

ROMDATA = bytes((37 * i + 11) & 255 for i in range(64))


def per(name, regs, events, alignment=2):
    p = make([(None, None, regs)], [], events, {"data_width": 32, "alignment": alignment}, name=name)
    return p


def bus_configs(tier, out):
    def add(name, ops, acc=None):
        """ops: ("rom", size, addr) ("ram", size, addr) ("per", n_events) ("plain",)"""
        def construct():
            from amlib.soc.simplesoc import SimpleSoC
            fabric()
            soc = SimpleSoC(clock_frequency=1_000_000)
            mems, pers = [], []
            for k, op in enumerate(ops):
                if op[0] == "rom":
                    mems.append((soc.add_rom(ROMDATA[:op[1]], op[1], **({} if op[2] is None else {"addr": op[2]})), op))
                elif op[0] == "ram":
                    mems.append((soc.add_ram(op[1], **({} if op[2] is None else {"addr": op[2]})), op))
                else:
                    p = per(f"p{k}", [(16, "rw", None, None)], ["level"] * (op[1] if op[0] == "per" else 0))
                    soc.add_peripheral(p, **({"addr": op[2]} if len(op) > 2 and op[2] is not None else {}))
                    pers.append((p, op))
            return soc, mems, pers

        def targets():
            soc, mems, pers = construct()
            pos = {id(i.resource): (i.start, i.end) for i in soc.memory_map.all_resources()}
            t, irq = [], 0
            for mem, op in mems:
                s, e = pos[id(mem)]
                size = 1 << (op[1] - 1).bit_length()
                if op[2] is not None and s != op[2]:
                    raise Broken(f"memory requested at {op[2]:#x} is at {s:#x}")
                if e - s != size:
                    raise Broken(f"memory of {op[1]} bytes occupies {e - s}")
                for w in (0, size // 4 - 1):
                    init = int.from_bytes(ROMDATA[4 * w:4 * w + 4], "little") if op[0] == "rom" and 4 * w < op[1] else 0
                    t.append((s // 4 + w, int(op[0] == "ram"), 0, init))
            nirq = 0
            ev = [i for i in soc.memory_map.all_resources() if hasattr(i.resource, "access")]
            for k, (p, op) in enumerate(pers):
                e = p.regs[0][1]
                t.append((pos[id(e)][0] // 4, 2, k, 0))
                if op[0] == "per":
                    for kind, nm in ((3, "pending"), (4, "enable"), (5, "status")):
                        r = [i for i in ev if str(i.name[-1]).startswith(p.name) and str(i.name[-1]).endswith("_" + nm)]
                        if len(r) != 1:
                            raise Broken(f"{len(r)} {nm} registers of peripheral {p.name}")
                        t.append((r[0].start // 4, kind, nirq, 0))
                    nirq += 1
            return t
        try:
            t = targets()
        except Exception:       # reported by build()
            t = [(0, 1, 0, 0)]

        def build():
            targets()
            soc, mems, pers = construct()
            ins, outs = {}, {"ip": soc.cpu.ip}
            for c, b in (("i", soc.cpu.ibus), ("d", soc.cpu.dbus)):
                ins.update({f"{c}_adr": b.adr, f"{c}_datw": b.dat_w, f"{c}_sel": b.sel, f"{c}_cyc": b.cyc, f"{c}_stb": b.stb, f"{c}_we": b.we})
                outs.update({f"{c}_datr": b.dat_r, f"{c}_ack": b.ack})
            q = 0
            for k, (p, op) in enumerate(pers):
                e = p.regs[0][1]
                ins[f"r{k}_d"] = e.r_data
                outs[f"r{k}_wd"] = e.w_data
                outs[f"r{k}_ws"] = e.w_stb
                if op[0] == "per":
                    for j, x in enumerate(p.evs):
                        ins[f"e{q}_{j}"] = x.stb
                    q += 1
            return soc, ins, outs
        nreg = sum(o[0] in ("per", "plain") for o in ops)
        pev = [o[1] for o in ops if o[0] == "per"]
        cpp = CPP.replace("SETREG", "".join(f"d.r{k}_d=0x11223344u*({k}+1)&REGMASK; " for k in range(nreg)))
        cpp = cpp.replace("SETEV", "".join(f"d.e{q}_{j}=m.ev[{q}]>>{j}&1; " for q, n in enumerate(pev) for j in range(n)))
        cpp = cpp.replace("WATCH", "".join(f"if(d.r{k}_ws){{ g_ws[{k}]++; g_wd[{k}]=d.r{k}_wd; }} " for k in range(nreg)))
        cov = ["read", "simultaneous"] + (["memory written"] if any(o[0] == "ram" for o in ops) else []) + (["register written"] if nreg else []) + \
              (["interrupt"] if pev else []) + (["write to read-only memory"] if any(o[0] == "rom" for o in ops) else [])
        out.append(Cfg(name, build, cpp, {"TARGETS": ",".join("{%d,%d,%d,%du}" % x for x in t), "PEVENTS": ",".join(map(str, pev)) or "0", "NP": max(1, len(pev)), "NIRQ": len(pev),
                                          "NREG": nreg, "REGMASK": 0xffff, "ACC": acc or (3 if tier == "quick" or len(t) > 8 else 4)}, covers=cov, ntraces=2, max_states=3_000_000))
    add("rom_ram", [("rom", 16, None), ("ram", 32, None)])
    add("ram_only", [("ram", 16, 0x40)])
    add("ram_4", [("ram", 4, None), ("ram", 8, 0x100)])
    add("two_peripherals", [("per", 1), ("per", 2)])
    add("peripheral_addr", [("ram", 16, None), ("plain", 0, 0x200), ("per", 1, 0x100)])
    add("mixed", [("rom", 32, 0x0), ("plain",), ("per", 2), ("ram", 16, 0x1000)])
    add("rom_second", [("ram", 16, 0x100), ("rom", 32, 0x0)])
    add("high", [("ram", 16, 0x80000000), ("rom", 24, 0x40000000)])
    add("three_irqs", [("per", 1), ("plain",), ("per", 1), ("per", 1)], 2)
    if tier == "thorough":
        add("t_three_peripherals", [("per", 1), ("plain",), ("per", 2), ("per", 1)])
        add("t_many", [("rom", 64, 0x0), ("ram", 32, None), ("ram", 64, 0x10000), ("per", 1)])


# --------------------------------------------------------------------------- address map, header, linker script
def alphabet():
    return {
        "A": ("ram", 32, 0x100000, {}),
        "B": ("ram", 24, None, {}),
        "C": ("rom", 64, 0x200000, {}),
        "D": ("rom", 16, None, {"is_main_rom": False}),
        "E": ("per", "alpha", [(8, "rw"), (16, "r"), (1, "w")], ["rise"], 2, 0x300000),
        "F": ("per", "beta", [(8, "w"), (16, "rw"), (8, "r")], [], 0, 0x400000),
        "G": ("per", "gamma", [(64, "rw"), (24, "r"), (32, "rw")], ["level", "fall"], 0, None),
        "H": ("ram", 100, 0x500000, {"is_main_mem": False}),
        "I": ("per", "delta", [(9, "rw")], ["level"], 2, None),
        "J": ("rom", 32, "default", {}),
        "K": ("per", "epsilon", [(8, "rw"), (32, "r"), (32, "rw")], ["rise", "level"], 2, 0xf0000000),
    }


def up(v, a):
    return (v + a - 1) // a * a


class Wrong(Exception):
    pass


def one_soc(seq, cdir, n):
    from amlib.soc.simplesoc import SimpleSoC
    A = alphabet()
    soc = SimpleSoC(clock_frequency=60_000_000)
    parts = []
    for k in seq:
        op = A[k]
        if op[0] == "ram":
            parts.append((k, op, soc.add_ram(op[1], **({} if op[2] is None else {"addr": op[2]}), **op[3])))
        elif op[0] == "rom":
            parts.append((k, op, soc.add_rom(ROMDATA[:op[1]], op[1], **({} if op[2] == "default" else {"addr": op[2]}), **op[3])))
        else:
            p = per(op[1], [(w, a, None, None) for w, a in op[2]], op[3], op[4])
            r = soc.add_peripheral(p, **({} if op[5] is None else {"addr": op[5]}))
            if r is not p:
                raise Wrong("add_peripheral does not return the peripheral")
            parts.append((k, op, p))
    infos = list(soc.memory_map.all_resources())
    pos = {id(i.resource): i for i in infos}
    # placement
    spans = []
    for w, (s, e, _) in soc.memory_map.windows():
        for s2, e2 in spans:
            if s < e2 and s2 < e:
                raise Wrong(f"{s:#x}..{e:#x} overlaps {s2:#x}..{e2:#x}")
        spans.append((s, e))
    if len(spans) != len(seq):
        raise Wrong(f"{len(spans)} windows for {len(seq)} parts")
    for (k, op, p), (s, e) in zip(parts, spans):
        addr = (0 if op[2] == "default" else op[2]) if op[0] != "per" else op[5]
        if addr is not None and s != addr:
            raise Wrong(f"{k} requested at {addr:#x} is at {s:#x}")
        if op[0] != "per":
            size = 1 << (op[1] - 1).bit_length()
            if id(p) not in pos or (pos[id(p)].start, pos[id(p)].end) != (s, s + size):
                raise Wrong(f"{k}: memory of {size} bytes is not at {s:#x}")
            if s % size:
                raise Wrong(f"{k}: memory of {size} bytes at {s:#x}")
        else:
            for _, el in p.regs:
                if id(el) not in pos or not s <= pos[id(el)].start < e:
                    raise Wrong(f"{k}: register outside of its peripheral")
    # resource list
    want = sorted((i.start, i.end - i.start) for i in infos)
    res = sorted((a, z) for _, a, z in soc.resources())
    if res != want:
        raise Wrong(f"resources() yields {res}, the memory map holds {want}")
    # main memories
    ram = next((p for k, op, p in parts if op[0] == "ram" and op[3].get("is_main_mem", True)), None)
    rom = next((p for k, op, p in parts if op[0] == "rom" and op[3].get("is_main_rom", True)), None)
    if ram is not None and soc.main_ram_address() != pos[id(ram)].start:
        raise Wrong(f"main_ram_address() is {soc.main_ram_address()}, not {pos[id(ram)].start:#x}")
    f = io.StringIO()
    soc.generate_ld_script(file=f)
    got = sorted((a, int(b, 0), int(c, 0)) for a, b, c in re.findall(r"(\w+)\s*:\s*ORIGIN\s*=\s*(\w+)\s*,\s*LENGTH\s*=\s*(\w+)", f.getvalue()))
    exp = sorted((nm, pos[id(p)].start, pos[id(p)].end - pos[id(p)].start) for nm, p in (("rom", rom), ("ram", ram)) if p is not None)
    if got != exp:
        raise Wrong(f"linker script has {got}, expected {exp}")
    # interrupt numbers
    irq = {}
    for k, op, p in parts:
        if op[0] == "per" and op[3]:
            irq[p.name] = len(irq)
            if soc.intc.lines.get(irq[p.name]) is not p.irq:
                raise Wrong(f"interrupt {irq[p.name]} is not that of {p.name}")
    if len(soc.intc.lines) != len(irq):
        raise Wrong("more interrupt lines than interrupting peripherals")
    # header: compiled and executed
    f = io.StringIO()
    soc.generate_c_header(macro_name="TEST", platform_name="some board", file=f)
    h = f"{cdir}/h{n}.h"
    open(h, "w").write(f.getvalue())
    names = {}
    for i in infos:
        names.setdefault("_".join(i.name), []).append(i)
    c = ["#include <stdio.h>", "#include <stdint.h>", "#include <string.h>", "#include <sys/mman.h>",
         "static unsigned long csr_330=0x80000100, csr_360; static unsigned long csr_mstatus;",
         "static unsigned long *which(const char*n){ return !strcmp(n,\"0x330\")?&csr_330: !strcmp(n,\"0x360\")?&csr_360:&csr_mstatus; }",
         "#define read_csr(r) (*which(#r))", "#define write_csr(r,v) (*which(#r)=(v))", "#define set_csr(r,b) (*which(#r)|=(b))", "#define clear_csr(r,b) (*which(#r)&=~(b))",
         f'#include "h{n}.h"', f'#include "h{n}.h"',
         "#define M(a) do{ unsigned long b_=((unsigned long)(a)&~4095ul)-4096; if(mmap((void*)b_,12288,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0)==MAP_FAILED) return 9; memset((void*)b_,0xee,12288); }while(0)",
         "int main(void){ int i; unsigned char*q; (void)i; (void)q;", 'if(strcmp(PLATFORM_NAME,"some board")) { printf("platform name %s\\n",PLATFORM_NAME); return 1; }']
    for nm, l in names.items():
        if len(l) > 1:
            continue
        i = l[0]
        size = i.end - i.start
        U = nm.upper()
        c.append(f'if((unsigned long){U}_ADDRESS!={i.start}ul || {U}_SIZE!={size}) {{ printf("{nm}: header says address 0x%lx size %d\\n",(unsigned long){U}_ADDRESS,(int){U}_SIZE); return 1; }}')
        acc = getattr(i.resource, "access", None)
        if acc is None or size not in (1, 2, 4) or i.start < 0x10000:
            continue
        c.append(f"M({i.start}); q=(unsigned char*){i.start}ul;")
        pat = 0x4d3c2b1a & ((1 << 8 * size) - 1)
        if acc.readable():
            c.append(f"for(i=0;i<{size};i++) q[i]=0x1a+0x11*i; if({nm}_read()!={pat}u) {{ printf(\"{nm}_read() returns %lx\\n\",(unsigned long){nm}_read()); return 1; }}")
        if acc.writable():
            c.append(f"memset(q,0xee,8); {nm}_write({pat}u); for(i=-8;i<12;i++) if(q[i]!=(i<0||i>={size}?0xee:0x1a+0x11*i)) {{ printf(\"{nm}_write() byte %d\\n\",i); return 1; }}")
    for nm, k in irq.items():
        c.append(f'for(i=0;i<32;i++){{ csr_360=1ul<<i; if(!!{nm}_interrupt_pending()!=(i=={k})) {{ printf("{nm}_interrupt_pending() with interrupt %d\\n",i); return 1; }} }}')
        c.append(f'for(i=0;i<4;i++){{ uint32_t x=(i&1?0x80000100u:0x7fff0055u)&~{1 << k}u|(i>>1?{1 << k}u:0), y; csr_330=x; {nm}_interrupt_enable(); y=csr_330; '
                 f'if(y!=(x|{1 << k}u)) {{ printf("{nm}_interrupt_enable() turns mask %x into %x\\n",x,y); return 1; }} '
                 f'csr_330=x; {nm}_interrupt_disable(); y=csr_330; if(y!=(x&~{1 << k}u)) {{ printf("{nm}_interrupt_disable() turns mask %x into %x\\n",x,y); return 1; }} }}')
    c.append("csr_mstatus=0x1880; irq_setie(1); if(csr_mstatus!=0x1888||!irq_getie()) { printf(\"irq_setie(1): mstatus %lx\\n\",csr_mstatus); return 1; } "
             "irq_setie(0); if(csr_mstatus!=0x1880||irq_getie()) { printf(\"irq_setie(0): mstatus %lx\\n\",csr_mstatus); return 1; }")
    c.append("return 0; }")
    open(f"{cdir}/c{n}.c", "w").write("\n".join(c))
    r = subprocess.run(["gcc", "-O0", "-w", "-o", f"{cdir}/x{n}", f"{cdir}/c{n}.c"], capture_output=True, text=True)
    if r.returncode:
        raise Wrong("header does not compile or lacks a definition: " + " / ".join(l.split("error:")[-1].strip() for l in r.stderr.splitlines() if "error" in l)[:300])
    r = subprocess.run([f"{cdir}/x{n}"], capture_output=True, text=True, timeout=60)
    os.remove(f"{cdir}/x{n}")
    if r.returncode:
        raise Wrong("header: " + (r.stdout.strip() or f"exit {r.returncode}"))
    return len(infos)


def sequences(tier):
    A = alphabet()
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for s in itertools.permutations(A, k):
            free = [A[c][2 if A[c][0] != "per" else 5] is None for c in s]
            if "J" in s and any(free[:s.index("J")]):
                continue            # address 0 may be taken
            yield "".join(s)


def run_maps(tier):
    import contextlib
    fabric()
    cdir = tempfile.mkdtemp(prefix="o05_")
    viol, states, samples = [], 0, []
    seqs = list(sequences(tier))

    def job(x):
        n, s = x
        try:
            return s, one_soc(s, cdir, n), None
        except Wrong as e:
            return s, 0, str(e)
        except Exception as e:
            return s, 0, f"{type(e).__name__}: {e}"
    try:
        with ThreadPoolExecutor(8) as ex:
            for s, k, bad in ex.map(job, enumerate(seqs)):
                states += 1
                if bad:
                    viol.append((s, f"after adding {s or 'nothing'} ({', '.join(str(alphabet()[c][:3]) for c in s)}): {bad}"))
                elif len(s) == 2 and len(samples) < 3:
                    samples.append({"sequence": s, "resources": k})
    finally:
        shutil.rmtree(cdir, ignore_errors=True)
    return dict(states=states, transitions=states, validated=states, samples=samples, violations=viol[:20])


def run_bios(tier):
    """The fixed parts of the BIOS set-up: which peripherals are added where, with which parameters."""
    from amlib.soc.simplesoc import SimpleSoC
    fabric()
    viol, n = [], 0
    for clk, baud, fixed in itertools.product((60_000_000, 48_000_000, 12_345_678), (115200, 9600, 1_000_000), (False, True)):
        n += 1
        try:
            soc = SimpleSoC(clock_frequency=clk)
            pins = object()
            soc.add_bios_and_peripherals(pins, uart_baud_rate=baud, fixed_addresses=fixed)
            if soc.uart.core.divisor != clk // baud or soc.uart.core.pins is not pins:
                viol.append(("uart", f"clock {clk} baud rate {baud}: divisor {soc.uart.core.divisor}"))
            at = {id(w): s for w, (s, e, _) in soc.memory_map.windows()}
            a = [at.get(id(p.bus.memory_map)) for p in (soc.bootrom, soc.scratchpad, soc.timer, soc.uart)]
            if None in a or (fixed and a != [0, 0x10000, 0x20000, 0x30000]):
                viol.append(("place", f"fixed_addresses={fixed}: parts at {a}"))
            if soc.intc.lines.get(0) is not soc.timer.irq or soc.intc.lines.get(1) is not soc.uart.irq or len(soc.intc.lines) != 2:
                viol.append(("irq", "timer and serial port do not have interrupts 0 and 1"))
            for omit in (True, False):
                got = sorted((a, z) for _, a, z in soc.resources(omit_bios_mem=omit))
                want = sorted((i.start, i.end - i.start) for i in soc.memory_map.all_resources() if not omit or i.resource not in (soc.bootrom._mem, soc.scratchpad._mem))
                if got != want or len(want) < 2:
                    viol.append(("list", f"resources(omit_bios_mem={omit}) yields {got}, expected {want}"))
            if soc.bootrom.writable or not soc.scratchpad.writable:
                viol.append(("rom", "BIOS ROM writable or scratchpad not"))
        except Exception as e:
            viol.append(("raise", f"{type(e).__name__}: {e}"))
    return dict(states=n, transitions=n, validated=n, samples=[], violations=viol[:5])


def configs(tier):
    out = []
    bus_configs(tier, out)
    out.append(PyCfg("maps", run_maps, cost=5))
    out.append(PyCfg("bios", run_bios))
    return out

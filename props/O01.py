"""WishboneRAM/WishboneROM under every sequence of idle signal values and classic accesses, against an array of byte lanes."""
import atexit
import os
import tempfile
from mc.runner import Cfg

ASSUMPTIONS = ["the bus master is a Wishbone classic master: it holds a request unchanged until it is acknowledged",
               "read data is judged in the acknowledge cycle of a read; bus interface from a stand-in with the same fields as amaranth_soc's (not installed here)"]

CPP = r"""
static const u64 INIT[]={TINIT};
static const u64 DATA[]={TDATA};
static const u32 ADRS[]={TADR};
static const u32 SELS[]={TSEL};
struct Mon { u64 mem[WORDS]; u8 act, we, age; u16 adr; u32 sel; u8 dat; u8 writes; };
static int init(D& d, Mon& m, Ch& ch){ for(int i=0;i<WORDS;i++) m.mem[i]=INIT[i]; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  if(!m.act){
    int k=ch(4);                  // cyc/stb combination
    d.bus__cyc=k&1; d.bus__stb=k>>1;
    if(k==3){ m.act=1; m.age=0; m.adr=ADRS[ch(sizeof ADRS/sizeof*ADRS)]; m.we=ch(2); m.sel=SELS[ch(NSEL)];
      if(m.we && CAP && m.writes>=CAP){ m.we=0; }
      m.dat= m.we? ch(NDATA) : NDATA-1; if(m.we && CAP) m.writes++; }
    else { // whatever is on the other lines
      int g=ch(2); d.bus__we=g; d.bus__sel=g? (1u<<NSELB)-1 : 0; d.bus__adr=g? WORDS-1:0; d.bus__dat_w=DATA[g%NDATA]; COVERIF(g && k,"we without request"); }
  }
  if(m.act){ d.bus__cyc=d.bus__stb=1; d.bus__adr=m.adr; d.bus__we=m.we; d.bus__sel=m.sel; d.bus__dat_w=DATA[m.dat]; }
  d.comb();
  if(!m.act) CHECK(!d.bus__ack,"acknowledge without a request");
  else if(m.age==0){ CHECK(!d.bus__ack,"acknowledged in the cycle of the request"); m.age=1; }
  else {
    CHECK(d.bus__ack,"not acknowledged one cycle after the request");
    if(m.we){
#if !RO
      for(int i=0;i<NSELB;i++) if(m.sel>>i&1){ u64 mk=((1ull<<GRAN)-1)<<(i*GRAN); m.mem[m.adr]=(m.mem[m.adr]&~mk)|(DATA[m.dat]&mk); }
      COVERIF(m.sel && m.sel!=(1u<<NSELB)-1,"partial write");
#endif
      COVER("write");
    } else { CHECK(d.bus__dat_r==m.mem[m.adr],"read of word %d returns %llx, contents are %llx",m.adr,(unsigned long long)d.bus__dat_r,(unsigned long long)m.mem[m.adr]); COVERIF(m.mem[m.adr]!=INIT[m.adr],"modified word"); COVER("read"); }
    m.act=m.age=m.adr=m.we=m.dat=0; m.sel=0;
  }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amlib.soc.memory import WishboneRAM, WishboneROM
    out = []
    tmp = tempfile.mkdtemp(prefix="verif_o01_")

    def drop():
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    atexit.register(lambda pid=os.getpid(): os.getpid() == pid and os.path.isdir(tmp) and drop())

    def add(name, dw, gran, words, init=None, exp=None, ro=False, rom=False, order="little", asfile=False, data=None, cap=0, sels=None, adrs=None):
        lanes = dw // gran
        lb = words.bit_length() - 1
        aw = lb + lanes.bit_length() - 1
        full = (1 << dw) - 1
        if asfile:
            path = os.path.join(tmp, name)
            with open(path, "wb") as f:
                f.write(init)
            init = path

        def build():
            if rom:
                t = WishboneROM(init, addr_width=aw, data_width=dw, granularity=gran)
            else:
                kw = {} if order == "little" else {"byteorder": order}
                t = WishboneRAM(addr_width=aw, data_width=dw, granularity=gran, init=init, read_only=ro, **kw)
            ins = {f"bus__{n}": getattr(t.bus, n) for n in ["cyc", "stb", "we", "sel", "dat_w"] + (["adr"] if lb else [])}
            return t, ins, {"bus__ack": t.bus.ack, "bus__dat_r": t.bus.dat_r}
        e = list(exp or [])
        e += [0] * (words - len(e))
        d = data or [full, 0x5a5a5a5a5a5a5a5a & full]
        sl = sels or list(range(1 << lanes))
        cpp = CPP
        if not lb:
            cpp = CPP.replace("d.bus__adr=g? WORDS-1:0;", "").replace("d.bus__adr=m.adr;", "")
        out.append(Cfg(name, build, cpp, {"DW": dw, "GRAN": gran, "NSELB": lanes, "WORDS": words, "RO": int(ro or rom), "CAP": cap,
                                          "TINIT": ",".join(f"{x}ull" for x in e), "TDATA": ",".join(f"{x}ull" for x in d), "NDATA": len(d),
                                          "TADR": ",".join(map(str, adrs or range(words))), "TSEL": ",".join(map(str, sl)), "NSEL": len(sl)},
                       covers=["read", "write"] + ([] if ro or rom else ["modified word"] + (["partial write"] if lanes > 1 else [])), ntraces=3, max_states=20_000_000))
    add("w16_g8_2w", 16, 8, 2)
    add("w16_g16_4w", 16, 16, 4, init=[1, 2, 0xffff], exp=[1, 2, 0xffff])
    add("w32_g8_1w", 32, 8, 1, init=[0x12345678], exp=[0x12345678])
    add("w32_g8_2w", 32, 8, 2, cap=3)
    add("w32_g16_2w", 32, 16, 2, init=[0xdeadbeef], exp=[0xdeadbeef])
    add("w32_g32_2w", 32, 32, 2)
    add("w8_g8_4w", 8, 8, 4, init=[1, 2, 3, 4], exp=[1, 2, 3, 4])
    add("w64_g8_2w", 64, 8, 2, sels=[0, 1, 0x80, 0xff, 0x5a], cap=2)
    by = bytes([0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77])
    add("ram_bytes_le", 32, 8, 2, init=by, exp=[0x44332211, 0x00776655], cap=1)
    add("ram_bytes_be", 32, 8, 2, init=by + b"\x88", exp=[0x11223344, 0x55667788], order="big", cap=1)
    add("ram_bytes_be_partial", 32, 8, 2, init=by, exp=[0x11223344, 0x55667700], order="big", cap=1)
    add("ram_file_le", 32, 8, 4, init=by, exp=[0x44332211, 0x00776655], asfile=True, cap=1)
    add("ram_bytes_w64", 64, 8, 2, init=by * 2, exp=[int.from_bytes((by * 2)[:8], "little"), int.from_bytes((by * 2)[8:], "little")],
        sels=[0, 0x5a, 0xff], cap=1)
    add("rom_bytes_w16", 16, 8, 4, init=by, exp=[int.from_bytes(by[i:i + 2], "little") for i in range(0, 8, 2)], rom=True)
    add("ram_bytearray", 32, 8, 2, init=bytearray(by), exp=[0x44332211, 0x00776655], cap=1)
    add("ram_bytes_g16", 32, 16, 2, init=by, exp=[0x44332211, 0x00776655], cap=1)
    add("ram_readonly", 16, 8, 4, init=[7, 8, 9, 10], exp=[7, 8, 9, 10], ro=True)
    add("rom_bytes", 32, 8, 4, init=by, exp=[0x44332211, 0x00776655], rom=True)
    add("rom_list_w16_g16", 16, 16, 4, init=[0xa55a, 1, 2, 0xffff], exp=[0xa55a, 1, 2, 0xffff], rom=True)
    add("rom_w32_g16", 32, 16, 4, init=[0xa55a1234, 1, 2], exp=[0xa55a1234, 1, 2], rom=True)
    add("w32_g8_256w", 32, 8, 256, init=[i * 0x9E3779B1 & 0xffffffff for i in range(200)], exp=[i * 0x9E3779B1 & 0xffffffff for i in range(200)],
        adrs=[0, 1, 2, 127, 128, 199, 200, 255], sels=[0xf, 1, 8, 6], cap=2)
    add("w8_g8_1024w", 8, 8, 1024, adrs=[0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 511, 1023], cap=2)
    add("w64_g32_16w", 64, 32, 16, adrs=[0, 7, 8, 15], cap=2)
    by2 = bytes((i * 37 + 11) & 0xff for i in range(1021))
    add("rom_bytes_256w", 32, 8, 256, init=by2, exp=[int.from_bytes(by2[i:i + 4], "little") for i in range(0, 1024, 4)], rom=True)
    add("rom_file_w8", 8, 8, 1024, init=by2, exp=list(by2), rom=True, asfile=True)
    add("ram_be_w16_512w", 16, 8, 512, init=by2[:1000], exp=[int.from_bytes(by2[i:i + 2], "big") for i in range(0, 1000, 2)], order="big",
        adrs=[0, 1, 255, 256, 257, 498, 499, 500, 511], cap=1)
    add("ram_be_w64_partial", 64, 8, 4, init=by2[:19], exp=[int.from_bytes((by2[:19] + bytes(5))[i:i + 8], "big") for i in range(0, 24, 8)], order="big",
        sels=[0xff, 0x81], cap=1)
    add("ram_be_w32_g16", 32, 16, 2, init=by2[:7], exp=[int.from_bytes((by2[:7] + bytes(1))[i:i + 4], "big") for i in (0, 4)], order="big", cap=1)
    add("ram_be_w32_g32", 32, 32, 2, init=by2[3:11], exp=[int.from_bytes(by2[i:i + 4], "big") for i in (3, 7)], order="big", cap=1)
    add("ram_be_w8", 8, 8, 4, init=by2[:4], exp=list(by2[:4]), order="big", cap=1)
    add("ram_be_w16_ro", 16, 8, 2, init=by2[:3], exp=[int.from_bytes(by2[:2], "big"), by2[2] << 8], order="big", ro=True)
    add("ram_ro_w64_g16", 64, 16, 2, init=by2[:16], exp=[int.from_bytes(by2[i:i + 8], "little") for i in (0, 8)], ro=True, sels=[0, 15, 6])
    if tier == "thorough":
        add("t_w16_g8_4w", 16, 8, 4)
        add("t_w32_g8_2w_all", 32, 8, 2)
        add("t_w8_g8_8w", 8, 8, 8, data=[0xff, 0x5a, 0x81])
        add("t_w32_g8_4w_cap4", 32, 8, 4, cap=4)
        add("t_w64_g16_2w", 64, 16, 2, cap=4)
    return out

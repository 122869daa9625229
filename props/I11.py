"""SPIMultiplexer: every combination of select, clock and data lines (combinational), plus a composition with real device cores."""
from mc.runner import Cfg

ASSUMPTIONS = ["at most one chip select is active (with several, the return line must still carry one of the selected devices' outputs)"]


def gen(n):
    if n > 7:
        oh = ",".join(["0"] + [str(1 << i) for i in range(n)] + [str(3 << i) for i in range(n - 1)])
        b = [f"static const u32 OH[]={{{oh}}}; int sel=OH[ch({2 * n})], so=OH[ch({2 * n})]; if(ch(2)) so=~so&{(1 << n) - 1}; d.sck=ch(2); d.sdi=ch(2);"]
    else:
        b = [f"int sel=ch({1 << n}), so=ch({1 << n}); d.sck=ch(2); d.sdi=ch(2);"]
    for i in range(n):
        b.append(f"d.cs{i}=(sel>>{i})&1; d.so{i}=(so>>{i})&1;")
    b.append("d.comb(); int cnt=__builtin_popcount(sel);")
    b.append('if(cnt==0){ CHECK(!d.sdo,"shared data line driven although no device is selected"); COVER("none"); }')
    b.append('if(cnt==1){ CHECK(d.sdo==((so&sel)!=0),"shared data line %d, selected device drives %d",(int)d.sdo,(so&sel)!=0); COVER("one"); }')
    b.append('if(cnt>1) CHECK((d.sdo && (so&sel)) || (!d.sdo && (~so&sel)),"shared data line %d comes from no selected device",(int)d.sdo);')
    for i in range(n):
        b.append(f'CHECK(d.ck{i}==d.sck && d.si{i}==d.sdi,"device {i} does not receive the shared clock or data"); CHECK(d.co{i}==((sel>>{i})&1),"chip select of device {i} altered");')
    return ("struct Mon{u8 x;};\nstatic int init(D&d,Mon&m,Ch&ch){return OK_;}\nstatic int step(D&d,Mon&m,Ch&ch){\n" + "\n".join(b) + "\ntick(d); return OK_;}\n")


COMP = r"""
// two SPIDeviceInterface cores (mode 0) behind the multiplexer; HALF cycles per clock phase
struct Mon { u8 seg, cnt, dev, bit, b, clk, got; u32 w, r; u8 wo[2]; u8 pend, age; u8 last; };
enum { DESEL, SETUP, HIGH, LOW };
#define HALF 5
static int init(D&d,Mon&m,Ch&ch){ m.cnt=8; m.wo[0]=ch(1<<WS); m.wo[1]=ch(1<<WS); m.dev=0; return OK_; }
static int step(D&d,Mon&m,Ch&ch){
  bool rise=false;
  if(m.cnt) m.cnt--; else switch(m.seg){
    case DESEL: m.dev=1+ch(2); m.seg=SETUP; m.cnt=HALF+3; m.bit=0; m.w=m.r=0; m.b=ch(2); COVERIF(m.last && m.last!=m.dev,"change of device"); break;
    case SETUP: case LOW:
      if(m.bit==WS){ m.seg=DESEL; m.last=m.dev; m.dev=0; m.cnt=8; m.bit=0; m.b=0; m.w=m.r=0; break; }
      m.seg=HIGH; m.clk=1; m.cnt=HALF-1; rise=true; break;
    case HIGH: m.seg=LOW; m.clk=0; m.cnt=HALF-1; m.b= m.bit<WS? ch(2):0; break;
  }
  d.cs0=m.dev==1; d.cs1=m.dev==2; d.sck=m.clk; d.sdi=m.b; d.wo0=m.wo[0]; d.wo1=m.wo[1];
  d.comb();
  if(!m.dev) CHECK(!d.sdo,"shared data line driven although no device is selected");
  if(rise){
    int e=(m.wo[m.dev-1]>>(WS-1-m.bit))&1;
    CHECK(d.sdo==e,"device %d: bit %d on the shared line is %d, expected %d",m.dev-1,m.bit,(int)d.sdo,e);
    m.w=m.w<<1|m.b; m.bit++; if(m.bit==WS){ m.pend=m.dev; m.age=0; m.r=m.w; }
  }
  if(d.wc0||d.wc1){
    CHECK(m.pend && d.wc0==(m.pend==1) && d.wc1==(m.pend==2),"word reported by a device that did not receive one");
    CHECK((m.pend==1?d.wi0:d.wi1)==m.r,"device %d received %x, sent %x",m.pend-1,(int)(m.pend==1?d.wi0:d.wi1),m.r);
    m.pend=0; m.age=0; COVER("word");
  } else if(m.pend) CHECK(++m.age<10,"word not reported");
  tick(d); return OK_;
}
"""


def configs(tier):
    from amaranth import Module
    from amlib.io.spi import SPIMultiplexer, SPIDeviceBus, SPIDeviceInterface

    def mk(n):
        def build():
            busses = [SPIDeviceBus() for _ in range(n)]
            t = SPIMultiplexer(busses)
            ins = {"sck": t.shared_lines.sck, "sdi": t.shared_lines.sdi}
            outs = {"sdo": t.shared_lines.sdo}
            for i, b in enumerate(busses):
                ins.update({f"cs{i}": b.cs, f"so{i}": b.sdo})
                outs.update({f"ck{i}": b.sck, f"si{i}": b.sdi, f"co{i}": b.cs})
            return t, ins, outs
        return build

    def comp(ws, n=2):
        def build():
            m = Module()
            devs = [SPIDeviceInterface(word_size=ws) for _ in range(n)]
            t = SPIMultiplexer([x.spi for x in devs])
            m.submodules.mux = t
            ins = {"sck": t.shared_lines.sck, "sdi": t.shared_lines.sdi}
            outs = {"sdo": t.shared_lines.sdo}
            for i, x in enumerate(devs):
                m.submodules[f"d{i}"] = x
                ins.update({f"cs{i}": x.spi.cs, f"wo{i}": x.word_out})
                outs.update({f"wc{i}": x.word_complete, f"wi{i}": x.word_in})
            return m, ins, outs
        return build
    ns = (1, 2, 3, 4, 5, 8, 9, 17) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 24)
    out = [Cfg(f"n{n}", mk(n), gen(n), {}, domains=(), covers=["none", "one"], ntraces=2) for n in ns]
    for ws in (3,) if tier == "quick" else (3, 4, 5):
        out.append(Cfg(f"devices_ws{ws}", comp(ws), COMP, {"WS": ws}, covers=["word", "change of device"], ntraces=3, max_states=20_000_000))
    return out

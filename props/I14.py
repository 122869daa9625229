"""Seven-segment decoders against the conventional glyphs (drawn as segments) and the bar graph against its thermometer contract."""
from mc.runner import Cfg

ASSUMPTIONS = ["segments a..g are bits 6..0 and the decimal point is bit 7 of each digit (module font table)", "registered outputs are judged once the inputs have been stable for 3 cycles",
               "'divided up linearly' allows a deviation of one segment from the exact line", "bar graph output is judged two cycles after an input change; value ranges above 1100: steps of one and jumps to the mirrored value"]

# segments lit for each hexadecimal digit: 6 and 9 with tails, b and d in lower case (to differ from 8 and 0)
GLYPHS = ["abcdef", "bc", "abged", "abgcd", "fgbc", "afgcd", "afgecd", "abc", "abcdefg", "abcdfg", "abcefg", "cdefg", "adef", "bcdeg", "adefg", "aefg"]
TAB = "static const u8 GL[16]={%s};\n" % ",".join(str(sum(1 << (6 - "abcdefg".index(s)) for s in g)) for g in GLYPHS)

SEG1 = TAB + r"""
struct Mon{u8 x;};
static int init(D&d,Mon&m,Ch&ch){ return OK_; }
static int step(D&d,Mon&m,Ch&ch){
  d.nib=ch(16); d.comb();
  CHECK((d.seg&0x7f)==GL[d.nib],"digit %X lights segments %02x, its glyph is %02x",(int)d.nib,(int)d.seg,GL[d.nib]);
  CHECK(!(d.seg&0x80),"decimal point lit"); COVER("digit");
  tick(d); return OK_; }
"""
SEGN = TAB + r"""
struct Mon{ u32 n; u16 dots; u8 age; };
static int init(D&d,Mon&m,Ch&ch){ return OK_; }
static int step(D&d,Mon&m,Ch&ch){
  if(m.age==0){   // one digit takes every value, the others one of two different ones
    u32 pos=ch(DIG), v=ch(16), bg=ch(2)?0x5A3C96E1u:0xF0248B7Du;
    m.n=(bg & ~(0xFu<<(4*pos))) | (v<<(4*pos)); if(DIG<8) m.n&=(1u<<(4*DIG))-1;
    m.dots = ch(1<<DIG);
  }
  d.num=m.n; d.dots=m.dots; d.comb();
  if(!REG || m.age==3) for(int i=0;i<DIG;i++){
    int s=(int)((d.seg>>(8*i))&0xff), g=GL[(m.n>>(4*i))&15] | ((m.dots>>i)&1)<<7;
    CHECK(s==g,"digit %d of %x shows %02x, its glyph is %02x",i,m.n,s,g); COVER("number");
  }
  if(REG) m.age=(m.age+1)&3; else { m.age=0; }
  tick(d); if(!m.age){ m.n=0; m.dots=0; } return OK_; }
"""
BAR = r"""
struct Mon{ i32 v; u8 age; i32 pv; u64 pb; u8 have; };
static int init(D&d,Mon&m,Ch&ch){ m.v=ch(VMAX+1); return OK_; }
static int step(D&d,Mon&m,Ch&ch){
  if(m.age==0 && m.have){ m.v = ch(2) ? (m.pv<VMAX? m.pv+1 : m.pv) : VMAX<1100 ? ch(VMAX+1) : ch(2) ? (m.pv? m.pv-1 : 0) : VMAX-m.pv; }
  d.val=m.v; d.comb();
  if(m.v>VMAXV) ASSUME((int)d.val==m.v); CHECK((int)d.val==m.v,"the input cannot hold the value %d",(int)m.v);
  if(m.age==2){
    u64 b=d.bar, full=(1ull<<BITS_OUT)-1;
    CHECK((b&(b+1))==0,"bar %llx for value %d is not contiguous",(long long)b,m.v);
    if(m.v<=VMINV) CHECK(b==0,"bar %llx for value %d at or below the minimum",(long long)b,m.v);
    if(m.v>=VMAXV) { CHECK(b==full,"bar %llx for value %d at or above the maximum",(long long)b,m.v); COVER("full"); }
    else CHECK(b!=full,"bar completely lit for value %d below the maximum",m.v);
    if(m.v>VMINV && BITS_OUT>1) CHECK(b!=0,"bar empty for value %d above the minimum",m.v);
    if(m.v>VMINV && m.v<VMAXV && BITS_OUT>1){   // between one bit and all bits but one, divided linearly
      int lit=__builtin_popcountll(b), R=VMAXV-VMINV, e=(m.v-VMINV)*(BITS_OUT-2);
      CHECK(lit*R>=e && (lit-2)*R<=e,"value %d lights %d of %d segments, linear would be %.2f",m.v,lit,BITS_OUT,1+(double)e/R);
    }
    if(m.have){ if(m.v>m.pv) CHECK(b>=m.pb,"bar shrinks from %llx to %llx when the value grows from %d to %d",(long long)m.pb,(long long)b,m.pv,m.v);
      if(m.v<m.pv) CHECK(b<=m.pb,"bar grows from %llx to %llx when the value falls from %d to %d",(long long)m.pb,(long long)b,m.pv,m.v);
      if(m.v==m.pv) CHECK(b==m.pb,"bar %llx and %llx for the same value %d",(long long)m.pb,(long long)b,m.v); }
    m.have=1; m.pv=m.v; m.pb=b; m.v=0; m.age=0;
  } else m.age++;
  tick(d); return OK_; }
"""


def configs(tier):
    from amlib.io.led import NibbleToSevenSegmentHex, NumberToSevenSegmentHex, NumberToBitBar
    out = []

    def nib():
        t = NibbleToSevenSegmentHex()
        return t, {"nib": t.nibble_in}, {"seg": t.seven_segment_out}
    out.append(Cfg("nibble", nib, SEG1, {}, domains=(), covers=["digit"]))

    def num(width, reg):
        def build():
            t = NumberToSevenSegmentHex(width=width, register=reg)
            return t, {"num": t.number_in, "dots": t.dots_in}, {"seg": t.seven_segment_out}
        return build
    for width in (4, 8, 12, 16, 20, 24, 28, 32):
        for reg in (False, True):
            if width > 16 and reg:
                continue
            out.append(Cfg(f"number_w{width}_r{int(reg)}", num(width, reg), SEGN, {"DIG": width // 4, "REG": int(reg)}, domains=("sync",) if reg else (),
                           covers=["number"], max_states=20_000_000))

    def bar(lo, hi, bits):
        def build():
            t = NumberToBitBar(minvalue_in=lo, maxvalue_in=hi, bitwidth_out=bits)
            return t, {"val": t.value_in}, {"bar": t.bitbar_out}
        return build
    rng = [(0, 16, 4), (0, 15, 8), (3, 32, 5), (16, 130, 8), (5, 7, 6), (1, 9, 3), (0, 64, 16), (7, 8, 4), (2, 40, 2), (0, 10, 1), (0, 100, 10), (60, 64, 8), (0, 255, 8), (0, 1000, 32), (100, 4000, 12), (1000, 1023, 24), (0, 65536, 16), (255, 256, 8), (1, 2, 1), (31, 97, 33)]
    if tier == "thorough":
        rng = sorted(set(rng + [(lo, hi, b) for hi in (4, 8, 11, 20, 33, 128, 256) for lo in (0, 1, hi // 2, hi - 1) for b in (1, 2, 3, 5, 8, 12)]))
    for lo, hi, b in rng:
        vmax = (1 << hi.bit_length()) - 1
        out.append(Cfg(f"bar_{lo}_{hi}_{b}", bar(lo, hi, b), BAR, {"VMAX": vmax, "VMINV": lo, "VMAXV": hi, "BITS_OUT": b}, covers=["full"]))
    return out

"""SPI controller environment (mode 1, chip select active high) for the command and register interfaces."""
CPP = r"""
enum { DESEL, SETUP, HIGH, LOW };
struct Spi { u8 seg, cnt, sel, clk, bit, prev, age, n, fclk, relage; };   // n: falling edges while selected, age: cycles since the last edge
enum { EV_NONE, EV_SELECT, EV_FALL, EV_DROP };
// drives sck/sdi/cs; NB: number of useful bits of a selection, at most EXTRA further clocks
static int spi_env(D& d, Spi& s, Ch& ch, int forced){
  int ev=EV_NONE;
  if(s.age<20) s.age++;
  if(s.relage<30) s.relage++;
  if(s.cnt){
    s.cnt--;
    if(s.sel && ABORT && ch(2)){ s.sel=0; s.seg=DESEL; s.cnt=GAP; s.relage=0; ev=EV_DROP; s.fclk=0; s.bit=s.prev=0; }
    else if(!s.sel && s.clk && s.cnt==GAP-2) s.clk=0;
  } else switch(s.seg){
    case DESEL:
      if(s.clk){ s.clk=0; s.cnt=2; }
      else if(FOREIGN && !s.fclk && ch(2)){ s.clk=1; s.fclk=1; s.cnt=2; COVER("foreign clock"); }
      else { s.sel=1; s.seg=SETUP; s.cnt=SU-1; s.n=0; s.age=0; s.fclk=0; s.relage=0; ev=EV_SELECT; COVER("selected"); }
      break;
    case SETUP: case LOW:
      if(s.seg==LOW && s.n>=NB && (s.n>=NB+EXTRA || ch(2))){ s.sel=0; s.seg=DESEL; s.cnt=GAP; s.relage=0; ev=EV_DROP; s.fclk=0; s.bit=s.prev=0; COVERIF(s.n>NB,"extra clocks"); break; }
      s.seg=HIGH; s.clk=1; s.cnt=HALF-1+(JIT?ch(2):0); s.prev=s.bit; s.bit = forced>=0 ? forced : s.n<NB ? ch(2) : !s.prev; break;
    case HIGH: s.seg=LOW; s.clk=0; s.cnt=HALF-1+(JIT?ch(2):0); s.n++; s.age=0; ev=EV_FALL; break;
  }
  bool near = (s.seg==HIGH && s.cnt==0) || (s.seg==LOW && s.age<=1);
  d.spi__cs=s.sel; d.spi__sck=s.clk; d.spi__sdi = s.sel ? (near? s.bit : !s.bit) : s.fclk;
  return ev;
}
"""

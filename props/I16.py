"""WS2812: the waveform is decoded by an independent LED-chain monitor."""
from mc.runner import Cfg

ASSUMPTIONS = ["system clock of at least 3.2 MHz (shorter clocks cannot express the zero pulse)", "LED addresses within the chain",
               "a colour written while a refresh is running may or may not be part of it", "no start request in the very cycle of done_out",
               "at most UPD writes per run, each at any cycle"]

CPP = r"""
static const u32 COL[]={0, 0x80C5A3, 0x7F3A5C, 0xFFFFFF, 0x010000, 0x000100, 0x000001, 0x800000};   // r<<16|g<<8|b
static const u16 AT[]={ADDRS};
#define NBITS (24*NLED)
struct Mon { u8 p, busy, cur[NLED], cand[NLED]; u16 high, low, per, n, wait; u32 sh; u8 upd, done, after, fresh; };
static int init(D& d, Mon& m, Ch& ch){ m.low = ch(2) ? 60000 : 0; m.fresh = !m.low; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int wr=0, c=0, a=0, st=0;
  if(m.upd<UPD && (ANYW || !m.busy) && ch(2)){ wr=1; a=AT[ch(sizeof AT/sizeof*AT)]; c=1+ch(NCOL-1); m.upd++; COVERIF(m.busy,"write during refresh"); }
  if(m.fresh){ m.fresh=0; st=1; }                        // the very first cycle after reset, nothing known about the line before
  else if(!m.busy) { if(ch(2)) st=1; } else if(BSTART && ch(2)) st=1;
  u32 v=wr?COL[c]:0x5AA53C;
  d.r=v>>16&255; d.g=v>>8&255; d.b=v&255; d.a=a; d.we=wr; d.start=st;
  d.comb();
  int o=d.o;
  if(d.done){
    CHECK(m.busy && m.n==NBITS && !o,"done_out although the refresh is not finished (%d bits sent)",m.n);
    if(st) ASSUME(false);
    CHECK(m.low+1>=RESET,"done_out after the line was low for %d cycles, the LEDs need %d",m.low+1,RESET);
    m.done=1; m.low=60000; COVER("done"); COVERIF(m.after,"second refresh done");
  }
  if(o){
    if(!m.p){
      CHECK(m.busy,"line is high although no refresh is running");
      CHECK(m.n<NBITS,"pulse after the last bit of the last LED");
      if(m.n==0){ CHECK(m.low>=RESET,"line was low for only %d cycles before the refresh, %d needed",m.low,RESET); COVERIF(m.after,"second refresh"); }
      else CHECK(m.per==PER,"bit %d of LED %d lasts %d cycles instead of %d",(m.n-1)%24,(m.n-1)/24,m.per,PER);
      m.high=0; m.per=0; m.low=0;
    }
    m.high++; CHECK(m.high<=HI1,"pulse of more than %d cycles",HI1);
  } else {
    if(m.p){
      int b; if(m.high>=LO0&&m.high<=HI0) b=0; else { CHECK(m.high>=LO1&&m.high<=HI1,"pulse of %d cycles is neither a zero (%d) nor a one (%d)",m.high,LO0,HI1); b=1; }
      m.sh=(m.sh<<1|b)&0xffffff; m.n++; m.high=0;
      if(m.n%24==0){
        int led=m.n/24-1; u32 rgb=(m.sh>>8&255)<<16 | (m.sh>>16)<<8 | (m.sh&255); bool ok=false;
        for(int i=0;i<NCOL;i++) if((m.cand[led]>>i&1) && COL[i]==rgb) ok=true;
        CHECK(ok,"LED %d receives r/g/b %06x, stored value is %06x",led,rgb,COL[m.cur[led]]);
        COVERIF(m.cur[led]==1&&rgb==COL[1],"coloured LED"); m.sh=0;
      }
    }
    if(m.low<60000) m.low++;
    if(m.low>RESET) m.low=60000;
  }
  if(m.busy && (m.n>0 || o) && m.n<NBITS){ CHECK(m.per<=PER,"bit %d is too long",m.n); m.per++; } else m.per=0;
  if(m.busy && (m.n==0 || m.n==NBITS) && !o){ CHECK(++m.wait<=2*RESET+4*PER,"refresh does not %s", m.n?"finish":"start"); } else m.wait=0;
  m.p=o;
  if(wr){ m.cur[a]=c; if(m.busy) m.cand[a]|=1<<c; }
  if(m.done){ m.done=0; m.busy=0; m.n=0; m.wait=0; m.after=1; for(int i=0;i<NLED;i++) m.cand[i]=0; }
  else if(st && !m.busy){ m.busy=1; m.n=0; m.wait=0; for(int i=0;i<NLED;i++) m.cand[i]=1<<m.cur[i]; }
  tick(d);
  return OK_;
}
"""


def configs(tier):
    import contextlib
    import io
    import math
    from amlib.io.ws2812 import WS2812

    def mk(f, n):
        def build():
            with contextlib.redirect_stdout(io.StringIO()):
                t = WS2812(sys_clock_freq=f, no_leds=n)
            ins = {"r": t.red_in, "g": t.green_in, "b": t.blue_in, "a": t.led_address_in, "we": t.write_enable_in, "start": t.start_in}
            outs = {"o": t.data_out, "done": t.done_out}
            return t, ins, outs
        return build
    out = []

    def add(name, f, n, upd=1, ncol=3, anyw=1, bstart=0, cov=(), addrs=None, **kw):
        per = int(f // 800000)
        lim = lambda x: (math.floor(x), math.ceil(x))
        (lo0, hi0), (lo1, hi1) = lim(0.32 * per), lim(0.64 * per)
        lo0 = max(lo0, 1)
        if hi0 >= lo1:
            hi0 = lo0
        c = {"NLED": n, "ADDRS": ",".join(map(str, addrs or range(n))), "PER": per, "RESET": math.ceil(50 * f / 1e6), "LO0": lo0, "HI0": hi0, "LO1": lo1, "HI1": hi1, "UPD": upd, "NCOL": ncol, "ANYW": anyw, "BSTART": bstart}
        out.append(Cfg(name, mk(f, n), CPP, c, covers=["done", "second refresh", "second refresh done", "coloured LED"] + list(cov), ntraces=3, max_states=20_000_000, cost=2, **kw))
    w = ["write during refresh"]
    add("8MHz_n3", 8e6, 3, cov=w)
    add("3.2MHz_n1", 3.2e6, 1, upd=2, ncol=8, cov=w)
    add("4MHz_n2_two", 4e6, 2, upd=2, anyw=0)
    add("12MHz_n4_busy_start", 12e6, 4, anyw=0, bstart=1)
    add("10MHz_n5", 10e6, 5, anyw=0, ncol=8)
    add("16MHz_n8", 16e6, 8, anyw=0)
    add("100MHz_n1", 100e6, 1, anyw=0)
    add("6MHz_n16", 6e6, 16, cov=w)
    add("48MHz_n4", 48e6, 4, upd=1, cov=w)
    add("5MHz_n33", 5e6, 33, anyw=0)
    add("3.2MHz_n64", 3.2e6, 64, anyw=0, ncol=2)
    add("3.2MHz_n300", 3.2e6, 300, anyw=0, ncol=2, addrs=[299, 43])
    add("60MHz_n2", 60e6, 2, anyw=0)
    add("7.3MHz_n10", 7.3e6, 10, cov=w)
    if tier == "thorough":
        add("t_4MHz_n2", 4e6, 2, upd=3, cov=w)
        add("t_3.2MHz_n3", 3.2e6, 3, upd=2, ncol=4, bstart=1, cov=w)
        add("t_5MHz_n128", 5e6, 128, anyw=0)
        add("t_25MHz_n32", 25e6, 32, anyw=0)
    return out

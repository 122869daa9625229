"""UARTPeripheral: register accesses on one side, an independent line decoder / frame generator on the other, character queues in between."""
from mc.runner import Cfg

ASSUMPTIONS = ["at most one register is accessed per cycle; the divisor is rewritten only while nothing is sent, buffered or received (one configuration also rewrites it while sending: the frames still buffered are then undefined)",
               "divisor >= 5 (documented receiver limit); a received character must be readable within one divisor plus 8 cycles after the middle of its stop bit, "
               "a written one must start within two divisors plus 6 cycles once the line is free",
               "no data read happens between the middle of a stop bit and the end of that window while the receive buffer is full (whether that character fits is then not defined)",
               "register elements, bus bridge and decoder are stand-ins with amaranth_soc's interfaces (not installed here): accesses are made at the register elements"]

CPP = r"""
#define NB (1+WIDTH+(PAR!=0)+1)
static const u32 AB[]={ALPHA}; static const u32 DV[]={DIVS};
#define QN (TXD>RXD?TXD+4:RXD+4)
#define NA (sizeof AB/sizeof*AB)
struct Mon {
  u8 en, dvi; u16 age;
  u8 tq[QN], tn; u8 ta, tc; u16 tp, tw;                 // to be sent; running frame
  u8 rq[QN], rn, rin; u16 rage; u8 rdrop;               // received (last one in flight if rin), drop expected
  u8 ra, rb, rc, rbad; u16 rp, gap; u8 n;              // line generator
  u8 st, pst, mt, pend, clr, ie, wr, bad, wantbad, sq, rs, burst; u16 ph, fz;
};
static int par(int c){ return PAR==3?__builtin_parity(c): PAR==4? !__builtin_parity(c): PAR==1; }
static int ebit(int c,int b){ return b==0?0: b<=WIDTH? (c>>(b-1))&1 : b==NB-1?1:par(c); }
static int init(D& d, Mon& m, Ch& ch){ m.gap= SEQ ? 20 : 255; m.en=EN0?2:0; m.mt=1; return OK_; }
static int step(D& d, Mon& m, Ch& ch){
  int div=DV[m.dvi];
  // ---- receive line
  int line=1; bool mid=false;
#if RX
  if(!m.ra){
    if(m.gap==255){ if((!CAP||m.n<CAP) && ch(2)) m.gap=0; } else if(m.gap && !--m.gap) m.gap=255;
    if(!m.gap){ m.ra=1; m.rb=0; m.rp=0; m.rc= SEQ ? ((u8)(m.rs*0x5b+m.rs)&((1<<WIDTH)-1)) : AB[ch(NA)]; m.rbad= BAD?ch(2):0; if(CAP) m.n++; }
  }
  if(m.ra){
    line= m.rb==NB-1 && m.rbad ? 0 : ebit(m.rc,m.rb);
    if(m.rb==NB-1 && m.rp==0){
      CHECK(!m.rin,"two characters in flight"); m.rage=0; m.wantbad=m.rbad; m.rin=1;
      if(m.rn==RXD) m.rdrop=1; else { m.rdrop=0; m.rq[m.rn++]=m.rc; if(SEQ) m.rs=(m.rs+1)%SEQ; }
    }
    if(++m.rp==div){ m.rp=0; if(++m.rb==NB){ m.ra=0; m.gap= m.rbad ? (NB+3)*div : SEQ ? 0 : (CAP && m.n>=CAP) || ch(2) ? 255 : 0; m.rb=0; m.rc=0; m.rbad=0; } }
  }
#endif
  d.rx=line;
  // ---- register accesses
  int op=0; u32 v=0;       // 0 none, 1 enable write, 2 tx write, 3 rx read, 4 divisor write
  bool quiet=!m.tn&&!m.ta&&!m.ra&&!m.rin&&m.gap==255;
  if(m.en==2){ op=1; v=1; m.en=0; }
  else {
    int t[6], k=1; t[0]=0;
#if SEQ      // long buffers: bursts of accesses, switched on and off only at certain times
    if(!m.ph) m.burst=ch(2);
    if(++m.ph==PHASE*NB*div) m.ph=0;
    if(m.burst){ if(TX){ op=2; v=(u8)(m.sq*0x5b+m.sq)&((1<<WIDTH)-1); } else if(!(m.rin && m.rn>=RXD)) op=3; }
#else
    if(!EN0) t[k++]=1;
    if(TX && (!CAP||m.wr<CAP) && !m.fz) t[k++]=2;
    if(RX && !(m.rin && (m.rn>=RXD))) t[k++]=3;
    if(IRQ) t[k++]=5;
    if(IRQ && (m.ie==0)) t[k++]=6;
    int c=ch(k); op=t[c]; if(op==6) v=7;
    if(op==1) v=ch(2);
    if(op==2){ v=AB[ch(NA)]; if(CAP) m.wr++; }
#endif
    if(NDIV>1 && !op && (quiet || (DVB && m.tn+m.ta && !m.fz && m.tp%div==div/2)) && ch(2)){ op=4; v=ch(NDIV); }
  }
  d.en_stb=op==1; d.en_data=op==1?v:0;
  d.tx_stb=op==2; d.tx_wdata=op==2?v:(1<<WIDTH)-1;
  d.rx_stb=op==3;
  d.dv_stb=op==4; d.dv_data=op==4?DV[v]:0;
  d.p_stb=op==5; d.p_data=7; d.e_stb=op==6; d.e_data=op==6?v:0;
  d.comb();
  // ---- status of the previous cycle
  CHECK(d.dv_r==(u32)div,"divisor register reads %d",(int)d.dv_r);
  CHECK((d.status&3)==(m.st&3),"event status %d, receiver conditions were %d",(int)d.status,m.st);
  CHECK(!(m.mt==0 && !(d.status&4)),"transmit buffer not reported empty");
  CHECK(!(m.mt==2 && (d.status&4)),"transmit buffer reported empty with characters waiting");
  u32 trig=(m.st&1) | ((m.st&2)&~m.pst) | (d.status&4&~m.pst);
  m.pend=(m.pend&~m.clr)|trig; m.clr=0;
  CHECK(d.pending==m.pend,"pending events %d, expected %d",(int)d.pending,m.pend);
  CHECK(d.irq==((m.pend&m.ie)!=0),"interrupt line %d with pending %d enabled %d",(int)d.irq,m.pend,m.ie);
  COVERIF(trig&4,"transmit buffer empty event"); COVERIF(m.mt==1,"transmit state undefined");
  m.pst=(m.st&3)|(d.status&4);
  // ---- transmit line
  if(m.fz){      // rewritten while sending: these frames are undefined, but the transmitter ends idle with the new divisor
    m.tw=0;
    if(!--m.fz){ m.tn=m.ta=m.tc=0; m.tp=0; for(int i=0;i<QN;i++) m.tq[i]=0; CHECK(d.tx,"line is low long after the last character"); CHECK(!d.driving,"driving is high long after the last character"); COVER("divisor rewritten while sending"); }
  } else if(!m.ta){
    if(!d.tx){ CHECK(m.tn,"start bit without a written character"); m.ta=1; m.tp=0; m.tc=m.tq[0]; for(int i=1;i<QN;i++) m.tq[i-1]=m.tq[i]; m.tq[QN-1]=0; m.tn--; m.tw=0; COVER("sent"); }
    else if(m.tn) CHECK(++m.tw<=2*div+6,"written character is not sent");
  }
  if(m.ta && !m.fz){ int b=m.tp/div; CHECK(d.tx==ebit(m.tc,b),"bit %d of the frame for %x is %d",b,m.tc,(int)d.tx); if(b<NB-1) CHECK(d.driving,"driving is low inside a frame");
    if(++m.tp==NB*div){ m.ta=0; m.tp=0; m.tc=0; } }
  // ---- transmit register
  if(m.fz); else if(m.tn<TXD) CHECK(d.tx_rdy,"transmitter not ready with %d of %d characters buffered",m.tn,TXD);
  if(m.tn>TXD && !m.fz) CHECK(!d.tx_rdy,"transmitter ready with %d characters buffered, depth %d",m.tn,TXD);
  COVERIF(TX && !d.tx_rdy,"transmit buffer full");
  if(op==2 && m.en && d.tx_rdy){ if(SEQ) m.sq=(m.sq+1)%SEQ; m.tq[m.tn++]=v; if(m.tn==1) m.tw=0; }
  if(op==2 && !m.en) COVER("write while disabled");
  // ---- receive register
#if RX
  int e=d.rx_err; bool over=e&1;
  if(m.rin){
    m.rage++;
    if(m.rage>=2*div+8){
      if(m.rdrop){ CHECK(over,"character dropped from a full buffer without the overflow flag"); COVER("overflow"); }
      else { CHECK(!over,"overflow flag although the character was stored"); CHECK(!!(e&2)==!!m.wantbad,"frame error flag %d for a frame with stop bit %d",(e>>1)&1,!m.wantbad); }
      CHECK(m.rdrop || !(e&4),"parity flag for a correct parity bit");
      m.rin=0; m.rage=0; m.bad=m.wantbad; m.rdrop=0; m.wantbad=0; }
  }
  int sure=m.rn-(m.rin&&!m.rdrop);
  if(sure>0) CHECK(d.rx_rdy,"receiver not ready with %d characters buffered",sure);
  if(!m.rn && !m.bad) CHECK(!d.rx_rdy,"receiver ready without a character");
  if(op==3 && d.rx_rdy){
    if(m.bad && !m.rn){ m.bad=0; }      // the low stop bit itself may be taken for one more character
    else {
      if(m.bad && d.rx_rdata!=m.rq[0]) { m.bad=0; }
      else {
      CHECK(m.rn,"data register holds a character that was not received");
      CHECK(d.rx_rdata==m.rq[0],"data register reads %x, oldest character is %x",(int)d.rx_rdata,m.rq[0]);
      if(m.rin && !m.rdrop && m.rn==1){ CHECK(m.rage>=div/2,"character read before its stop bit"); }
      for(int i=1;i<QN;i++) m.rq[i-1]=m.rq[i]; m.rq[QN-1]=0; m.rn--; COVER("read"); COVERIF(m.rn,"more buffered"); }
    }
  }
  if(op==3 && !d.rx_rdy) COVER("read from empty buffer");
  int st=(d.rx_rdy?1:0)|(e?2:0);
#else
  int st=0; CHECK(!d.rx_rdy,"receiver ready without a character"); CHECK(!d.rx_err,"receive error on an idle line");
#endif
  if(op==4 && !quiet){ m.fz=(TXD+2)*NB*DVB+20; m.wr=CAP-1; m.ta=1; m.tp=0; m.tc=0; m.tn=1; for(int i=0;i<QN;i++) m.tq[i]=0; }
  m.mt = m.fz ? 1 : m.tn>=2+(op==2) ? 2 : (m.tn || op==2) ? 1 : 0;       // buffer empty: certain only when nothing waits
  m.st=st;
  if(op==5) m.clr=7;
  if(op==6) m.ie=v;
  if(op==1) m.en=v;
  if(op==4) m.dvi=v;
  if(!m.tn) m.tw=0;
  tick(d);
  return OK_;
}
"""


def configs(tier):
    from amaranth import Record
    from amaranth_soc import csr
    from amlib.soc.uart import UARTPeripheral
    PARS = ["none", "mark", "space", "even", "odd"]

    def mk(div, bits, par, txd, rxd, dvb, pins):
        def build():
            kw = {"divisor_bits": dvb} if dvb else {}
            if pins:
                p = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])
                kw["pins"] = p
            csr.Multiplexer.created.clear()
            uart = UARTPeripheral(rx_depth=rxd, tx_depth=txd, divisor=div, data_bits=bits, parity=par, **kw)
            el = {e.csr_name: e for x in csr.Multiplexer.created for e in x.elements}

            def reg(name):
                c = [e for n, e in el.items() if n.endswith("_" + name)]
                assert len(c) == 1, (name, list(el))
                return c[0]
            pend = reg("ev_pending")
            ins = {"rx": p.rx.i if pins else uart.rx, "en_stb": reg("enabled").w_stb, "en_data": reg("enabled").w_data, "tx_stb": reg("tx_data").w_stb, "tx_wdata": reg("tx_data").w_data,
                   "rx_stb": reg("rx_data").r_stb, "dv_stb": reg("divisor").w_stb, "dv_data": reg("divisor").w_data,
                   "p_stb": pend.w_stb, "p_data": pend.w_data, "e_stb": reg("ev_enable").w_stb, "e_data": reg("ev_enable").w_data}
            outs = {"tx": p.tx.o if pins else uart.tx, "driving": uart.driving, "dv_r": reg("divisor").r_data, "rx_rdy": reg("rx_rdy").r_data, "rx_err": reg("rx_err").r_data,
                    "rx_rdata": reg("rx_data").r_data, "tx_rdy": reg("tx_rdy").r_data, "status": reg("ev_status").r_data, "pending": pend.r_data, "irq": uart.irq}
            return uart, ins, outs
        return build
    out = []

    def add(name, div=5, bits=8, par="none", txd=2, rxd=2, dvb=0, divs=None, pins=False, tx=1, rx=1, covers=(), **kw):
        c = dict({"SEQ": 0, "PHASE": 0, "BAD": 0, "CAP": 0, "DVB": 0, "EN0": 1, "IRQ": 0, "ALPHA": "0xa5,0x3c"}, WIDTH=bits, PAR=PARS.index(par), TXD=txd, RXD=rxd, TX=tx, RX=rx,
                 DIVS=",".join(map(str, divs or [div])), NDIV=len(divs or [div]), **kw)
        cov = (["sent"] if tx else []) + (["read"] + ([] if kw.get("SEQ") else ["read from empty buffer"]) if rx else []) + list(covers)
        out.append(Cfg(name, mk(div, bits, par, txd, rxd, dvb, pins), CPP, c, covers=cov, ntraces=3, max_states=30_000_000, cost=3))
    add("tx", rx=0, covers=["transmit buffer full", "transmit buffer empty event"], IRQ=1)
    add("tx_enable", rx=0, bits=5, EN0=0, ALPHA="0x15,0x0a", covers=["write while disabled"])
    add("tx_even_d3", rx=0, bits=7, txd=3, par="even", ALPHA="0x15,0x2f")
    add("rx", tx=0, covers=["overflow", "more buffered"], IRQ=1)
    add("rx_bad", tx=0, IRQ=1, BAD=1, bits=5, ALPHA="0x15,0x0a")
    add("rx_disabled", tx=0, bits=5, EN0=0, ALPHA="0x15,0x0a", covers=["overflow"])
    add("rx_odd_depth3", tx=0, bits=5, div=6, rxd=3, par="odd", ALPHA="0x15,0x1f", covers=["overflow"])
    add("both", bits=4, ALPHA="0x5,0xa", txd=2, rxd=2, CAP=3)
    add("divisor", bits=4, ALPHA="0x5", divs=[5, 7], dvb=4, CAP=2)
    add("divisor_busy", bits=4, rx=0, ALPHA="0x5,0xa", divs=[5, 9], dvb=4, CAP=3, DVB=9, covers=["divisor rewritten while sending"])
    add("pins", bits=4, ALPHA="0x5,0xb", pins=True, CAP=2)
    add("tx_depth16", rx=0, txd=16, covers=["transmit buffer full"], SEQ=32, PHASE=9)
    add("tx_depth5_div24_odd", rx=0, div=24, txd=5, bits=7, par="odd", covers=["transmit buffer full"], SEQ=5, PHASE=3)
    add("rx_depth16", tx=0, rxd=16, covers=["overflow", "more buffered"], SEQ=32, PHASE=11)
    add("rx_depth5_div24_even", tx=0, div=24, rxd=5, bits=7, par="even", covers=["overflow", "more buffered"], SEQ=10, PHASE=4)
    if tier == "thorough":
        add("t_both", bits=4, ALPHA="0x5,0xa", txd=2, rxd=2, CAP=3)
        add("t_tx", rx=0, txd=4, div=8, ALPHA="0xa5,0x3c,0xff")
        add("t_rx", tx=0, rxd=4, div=8, par="mark", ALPHA="0xa5,0x3c")
        add("t_divisor", bits=5, ALPHA="0x15,0x0a", divs=[5, 7, 12], dvb=4, CAP=2)
    return out

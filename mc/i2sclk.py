"""Bit clock / word clock generator shared by the I2S checks."""
CPP = r"""
// one slot = L bit-clock periods; data and word clock change at falling edges; SKEW: word clock changes SKEW cycles relative to the fall (-1,0,1)
struct Clk { u8 clk, ph, pos, ch, ws; };     // ph: cycles since the last edge; pos: bit-clock period within the slot (period = low phase, then high phase)
static void clk_init(Clk& c, int chn, int pos){ c.clk=0; c.ph=0; c.pos=pos; c.ch=chn; c.ws=chn; }
// advance by one cycle; returns 1 = rise, 2 = fall (slot position already advanced), 0 = nothing;
static int clk_step(Clk& c, Ch& ch){
  int ev=0; c.ph++;
  bool longer = JIT && c.ph==HALF ? ch(2) : 0;
  if(c.ph>=HALF && !longer){
    c.ph=0; c.clk=!c.clk;
    if(c.clk) ev=1; else { ev=2; if(++c.pos==L){ c.pos=0; c.ch=!c.ch; } }
  }
  int w=c.ch;
  if(SKEW<0 && c.clk && c.pos==L-1 && c.ph>=HALF-1) w=!c.ch;
  if(SKEW>0 && !c.clk && c.pos==0 && c.ph<1) w=c.ws;
  c.ws=w;
  return ev;
}
#define LEFT_LEVEL (STD?0:1)
"""

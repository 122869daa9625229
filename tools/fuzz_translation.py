"""Differential self-test of the translation (development aid, no registered check uses it): random Amaranth designs (expressions,
partial assignments, switches, state machines, memories, inserters, two domains, wide values) are translated, explored a little, and
the explored paths replayed in the simulator.  usage: fuzz_translation.py FROM_SEED TO_SEED WORKERS
Left out on purpose: dynamic parts of expressions read beyond their end and arrays of expressions of different shapes, where the
0.4 simulator does not truncate operands."""
import sys, os, random, warnings, subprocess, shutil, json, traceback
sys.path[:0]=[os.path.dirname(os.path.dirname(os.path.abspath(__file__))), os.environ.get("VERIF_REPO", "/repo")]
warnings.simplefilter("ignore"); sys.setrecursionlimit(100000)
from amaranth import *
from amaranth.lib.fifo import SyncFIFO
from mc.runner import make_design, conform, CXX, VERIF, Cfg
from multiprocessing import Pool
CPP='''
struct Mon { u32 dummy; };
int init(D& d, Mon& m, Ch& ch){ memset(&m,0,sizeof m); return OK_; }
int step(D& d, Mon& m, Ch& ch){
  RAND
  u32 k = ch(MASKS);
  d.comb(); tick(d, k+1); return OK_; }
'''
class Gen:
    def __init__(s, seed):
        s.r=random.Random(seed)
    def shape(s):
        w=s.r.choice([1,1,1,2,3,4,5,7,8,8,12,16]+([33,63,64,65,70] if s.wide else []))
        return Shape(w, s.r.random()<.3)
    def expr(s, d, pool):
        r=s.r
        if d<=0 or r.random()<.12:
            if r.random()<.25:
                sh=s.shape(); return Const(r.getrandbits(sh.width), sh)
            return r.choice(pool)
        e=lambda: s.expr(d-1,pool)
        def small(w=4):
            x=e(); return x[:w] if len(x)>w else x.as_unsigned()
        k=r.randrange(26)
        if k==0: return ~e()
        if k==1: return -e()
        if k==2: return e().bool()
        if k==3: return e().all()
        if k==4: return e().xor()
        if k==5: return e().as_signed()
        if k==6: return e().as_unsigned()
        if k in(7,8): return s.cut(e()+e())
        if k==9: return s.cut(e()-e())
        if k==10:
            a,b=e(),e()
            if len(a)+len(b)>100: a=a[:20];
            return s.cut(a*b)
        if k==11: return e()&e()
        if k==12: return e()|e()
        if k==13: return e()^e()
        if k==14: return r.choice([lambda a,b:a==b,lambda a,b:a!=b,lambda a,b:a<b,lambda a,b:a<=b,lambda a,b:a>b,lambda a,b:a>=b])(e(),e())
        if k==15:
            x=e(); a=r.randrange(len(x)); b=r.randrange(a+1,len(x)+1); return x[a:b]
        if k==16: return s.cut(Cat(*[e() for _ in range(r.randrange(1,4))]))
        if k==17: return Mux(e(),e(),e())
        if k==18: return s.cut(e()<<small(3))
        if k==19: return e()>>small()
        if k==20:
            x=r.choice(pool); return x.bit_select(small(), r.randrange(1,len(x)+1)) if len(x) else x
        if k==21:
            x=r.choice(pool); return x.word_select(small(), r.randrange(1,len(x)+1)) if len(x) else x
        if k==22: return Array([r.choice(pool) for _ in range(r.randrange(1,5))])[small()]
        if k==23:
            x=e(); return x.matches(*["".join(r.choice("01--") for _ in range(len(x))) for _ in range(r.randrange(1,3))]) if len(x) else x
        if k==24:
            return s.cut((e()//e().as_unsigned()) if r.random()<.5 else (e()%e().as_unsigned()))
        if k==25:
            x=e(); 
            if not len(x): return x
            return r.choice([lambda:x.rotate_left(r.randrange(5)),lambda:x.shift_right(r.randrange(5)),lambda:s.cut(x.replicate(2)),lambda:x.any(),lambda:abs(x), lambda:s.cut(x.shift_left(r.randrange(4)))])()
    def cut(s,x):
        lim=90 if s.wide else 50
        return x[:lim] if len(x)>lim else x
    def lhs(s, sigs, arrs, pool):
        r=s.r; v=r.choice(sigs)
        k=r.randrange(10)
        if k<5: return v
        if k==5:
            a=r.randrange(len(v)); b=r.randrange(a+1,len(v)+1); return v[a:b]
        if k==6:
            x=s.expr(1,pool)[:3]; return v.bit_select(x, r.randrange(1,len(v)+1))
        if k==7:
            x=s.expr(1,pool)[:3]; return v.word_select(x, r.randrange(1,len(v)+1))
        if k==8:
            w=r.choice(sigs); 
            return Cat(v[:len(v)//2+1], w) if w is not v else v
        if k==9 and arrs:
            x=s.expr(1,pool)[:3]
            a=Array(arrs)[x]
            if r.random()<.4:
                a0=r.randrange(len(arrs[0])); return a[a0:]
            return a
        return v
    def body(s, m, dom, sigs, arrs, pool, d, fsm):
        r=s.r
        for _ in range(r.randrange(1,4)):
            k=r.randrange(6)
            if k<3 or d==0:
                m.d[dom] += s.lhs(sigs,arrs,pool).eq(s.expr(3,pool))
            elif k==3:
                with m.If(s.expr(2,pool)): s.body(m,dom,sigs,arrs,pool,d-1,fsm)
                if r.random()<.5:
                    with m.Elif(s.expr(2,pool)): s.body(m,dom,sigs,arrs,pool,d-1,fsm)
                if r.random()<.5:
                    with m.Else(): s.body(m,dom,sigs,arrs,pool,d-1,fsm)
            elif k==4:
                x=s.expr(2,pool)
                if not len(x): continue
                x=x[:6]
                with m.Switch(x):
                    for _ in range(r.randrange(1,4)):
                        pats=[r.getrandbits(len(x)) if r.random()<.5 else "".join(r.choice("01-") for _ in range(len(x))) for _ in range(r.randrange(1,3))]
                        with m.Case(*pats): s.body(m,dom,sigs,arrs,pool,d-1,fsm)
                    if r.random()<.5:
                        with m.Default(): s.body(m,dom,sigs,arrs,pool,d-1,fsm)
            elif k==5 and fsm and d==2:
                n=r.randrange(2,4)
                with m.FSM(domain=fsm) as f:
                    for i in range(n):
                        with m.State(f"S{i}"):
                            s.body(m,dom,sigs,arrs,pool,d-1,None)
                            with m.If(s.expr(1,pool)): m.next=f"S{r.randrange(n)}"
                            if r.random()<.3: m.next=f"S{r.randrange(n)}"
                fsm=None
    def build(s):
        r=s.r; s.wide=r.random()<.25
        ins={f"i{k}":Signal(s.shape(),name=f"i{k}") for k in range(r.randrange(2,5))}
        s.doms=["sync"] if r.random()<.7 else ["sync","b"]
        m=Module(); outs={}
        pool=list(ins.values())
        if r.random()<.5:
            mem=Memory(width=r.choice([1,4,8]),depth=r.choice([2,3,4,5]),init=[r.getrandbits(8)&1 for _ in range(2)])
            rp=mem.read_port(domain=r.choice(["comb"]+s.doms), transparent=True) if r.random()<.5 else mem.read_port(domain=r.choice(s.doms),transparent=False)
            wp=mem.write_port(domain=r.choice(s.doms)); m.submodules+=[rp,wp]
            pi=list(pool)
            a=s.expr(1,pi); m.d.comb+=[rp.addr.eq(a)]
            m.d.comb+=[wp.addr.eq(s.expr(1,pi)),wp.data.eq(s.expr(2,pi)),wp.en.eq(s.expr(1,pi))]
            if rp.en.__class__ is Signal and r.random()<.5: m.d.comb+=rp.en.eq(s.expr(1,pi))
            pool.append(rp.data); outs["mem"]=rp.data
        regs=[]; groups=[]
        for g,dom in enumerate(s.doms):
            sg=[]
            for k in range(r.randrange(1,4)):
                sh=s.shape(); x=Signal(sh,name=f"r{g}_{k}",reset=r.getrandbits(sh.width) if not sh.signed else 0, reset_less=r.random()<.3); sg.append(x)
            arrs=[]
            if r.random()<.4:
                sh=s.shape(); arrs=[Signal(sh,name=f"a{g}_{k}") for k in range(r.randrange(2,5))]
            groups.append((dom,sg,arrs)); regs+=sg+arrs
        pool+=regs
        # combinational layers
        for k in range(r.randrange(1,4)):
            sh=s.shape(); c=[Signal(sh,name=f"c{k}",reset=r.getrandbits(sh.width) if not sh.signed else 0)]
            sub=Module() if r.random()<.4 else m
            s.body(sub,"comb",c,[],list(pool),2,None)
            if sub is not m: m.submodules+=sub
            pool+=c; outs[f"c{k}"]=c[0]
        for dom,sg,arrs in groups:
            sub=Module()
            s.body(sub,dom,sg,arrs,pool,2,dom)
            q=r.random()
            if q<.2: sub=ResetInserter({dom: pool[0][0]})(sub)
            elif q<.4: sub=EnableInserter({dom: pool[0][0]})(sub)
            m.submodules+=sub
        if r.random()<.3:
            f=SyncFIFO(width=2,depth=r.randrange(1,4)); m.submodules+=f
            m.d.comb+=[f.w_data.eq(s.expr(1,pool)),f.w_en.eq(pool[0][0]),f.r_en.eq(s.expr(1,pool))]
            outs["fd"]=f.r_data; outs["fr"]=f.r_rdy
        for x in regs: outs[x.name]=x
        s.ins=ins
        return m,ins,outs
def one(seed):
    wd=f"/tmp/fuzz_translation.{os.getpid()}"; shutil.rmtree(wd,ignore_errors=True); os.makedirs(wd)
    try:
        g=Gen(seed)
        try:
            d=g.build(); shapes={n:x.shape() for n,x in g.ins.items()}
        except Exception as e:
            return seed,"gen",repr(e)[:200]
        rand="".join(f"  {{ u64 v=0; " + ("v=ch(1u<<%d);"%sh.width if sh.width<=2 else f"switch(ch(4)){{case 0: v=0;break;case 1:v=~0ull;break;case 2:v=0x{random.Random(seed).getrandbits(60):x}ull;break;default:v=1ull<<{sh.width-1 if sh.width<64 else 63};}}") + f" d.{n} = " + (f"(typeof(d.{n}))(v << {64-min(sh.width,64)}) >> {64-min(sh.width,64)};" if 0 else f"NORM(v,{sh.width},{int(sh.signed)});") + " }\n" for n,sh in shapes.items())
        cpp=CPP.replace("RAND",rand).replace("MASKS",str(2**len(g.doms)-1))
        cpp="static i64 NORM(u64 v,int w,int sg){ if(w<64) v&=(1ull<<w)-1; if(sg&&w<64&&(v>>(w-1)&1)) v|=~0ull<<w; return (i64)v; }\n"+cpp
        cfg=Cfg("x",lambda:d,cpp,domains=g.doms)
        try: des=make_design(cfg)
        except Exception as e:
            s=repr(e)
            return seed,"make",s[:200]+"".join(traceback.format_tb(e.__traceback__)[-2:])
        open(wd+"/harness.inc","w").write(cfg.cpp)
        open(wd+"/main.cpp","w").write('#include "engine.hpp"\n'+des.code+'#include "engine_main.hpp"\n')
        p=subprocess.run([CXX,"-std=c++20","-O0","-w","-fbracket-depth=8192","-I",wd,"-I",VERIF+"/mc",wd+"/main.cpp","-o",wd+"/mc"],capture_output=True,text=True)
        if p.returncode: return seed,"cc",p.stderr[:300]
        p=subprocess.run([wd+"/mc","1500","1000000","10","12",wd+"/out","40"],capture_output=True,text=True)
        if p.returncode: return seed,"run",p.stderr[-300:]
        js=json.load(open(wd+"/out.json")); t=0
        for k in range(js["traces"]):
            n,err=conform(des,f"{wd}/out.tr{k}")
            if err: return seed,"DIVERGE",err[:400]
            t+=n
        return seed,"ok",t
    except Exception as e:
        return seed,"exc",traceback.format_exc()[-600:]
    finally: shutil.rmtree(wd,ignore_errors=True)
if __name__=="__main__":
    a,b,w=map(int,sys.argv[1:4]); from collections import Counter
    c=Counter(); T=0
    with Pool(w) as p:
        for s,k,x in p.imap_unordered(one,range(a,b)):
            c[k]+=1
            if k=="ok": T+=x
            else: print(s,k,x,flush=True)
    print(c,T)

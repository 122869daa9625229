// second half: requires D, Mon, init, step
static inline void tick(D& d, unsigned mask=1){
  g_ticks++;
  if(g_trace){ D b_; memcpy((void*)&b_,(void*)&d,sizeof d); d.comb(); if(memcmp((void*)&b_,(void*)&d,sizeof d)) die("harness ticks with stale combinational values"); fprintf(g_trace, "%x : ", mask); d.dump(g_trace); fputc('\n', g_trace); }
  d.tick_(mask);
}
#include "harness.inc"

static constexpr int NRW_ = (D::STATE_BITS_+63)/64;
static constexpr int NMW_ = (sizeof(Mon)+7)/8;
static constexpr int NW_  = NRW_+NMW_;

static u64* arena; static u32* parent; static u64 nstates=0, cap;
static u32* table; static u64 tmask;
static u64 hashw(const u64* s){ u64 h=0x9E3779B97F4A7C15ull; for(int i=0;i<NW_;i++){ h ^= s[i]; h *= 0xff51afd7ed558ccdull; h ^= h>>32; } h*=0xc4ceb9fe1a85ec53ull; h^=h>>29; return h; }
static void grow(){ u64 ns=(tmask+1)*2; free(table); table=(u32*)calloc(ns,4); if(!table) die("oom"); tmask=ns-1;
  for(u64 i=0;i<nstates;i++){ u64 h=hashw(arena+i*NW_)&tmask; while(table[h]) h=(h+1)&tmask; table[h]=(u32)i+1; } }
static void save(const D& d, const Mon& m, u64* s){ memset(s,0,NW_*8); d.pack(s); memcpy(s+NRW_,&m,sizeof(Mon)); }
static void load(D& d, Mon& m, const u64* s){ d.unpack(s); d.reset_inputs(); memcpy(&m,s+NRW_,sizeof(Mon)); }
static bool insert(const u64* s, u32 par){
  if((nstates+1)*10 > (tmask+1)*6) grow();
  u64 h=hashw(s)&tmask;
  while(table[h]){ if(!memcmp(arena+(u64)(table[h]-1)*NW_,s,NW_*8)) return false; h=(h+1)&tmask; }
  if(nstates>=cap) return false;
  memcpy(arena+nstates*NW_,s,NW_*8); parent[nstates]=par; table[h]=(u32)(++nstates); return true;
}
static bool full(){ return nstates>=cap; }
static bool known(const u64* s){ u64 h=hashw(s)&tmask; while(table[h]){ if(!memcmp(arena+(u64)(table[h]-1)*NW_,s,NW_*8)) return true; h=(h+1)&tmask; } return false; }
static u32 find(const u64* s){ u64 h=hashw(s)&tmask; while(table[h]){ if(!memcmp(arena+(u64)(table[h]-1)*NW_,s,NW_*8)) return table[h]-1; h=(h+1)&tmask; } return ~0u; }

static int g_walk=0;
// Re-execute the path to state `target`, recording ticks to g_trace; then optionally one more step with choice `fin`
static void replay_path(u32 target, FILE* out, Ch* fin, bool fin_is_init){
  g_count_cov=false;
  u32* path=0; u64 n=0, pc=0;
  if(!fin_is_init) for(u32 i=target;i!=~0u;i=parent[i]){ if(n==pc){ pc=pc?pc*2:1024; path=(u32*)realloc(path,pc*4);} path[n++]=i; }
  D d; Mon m; u64 s[NW_]; Ch ch;
  if(fin_is_init){ memset(&m,0,sizeof m); d.reset(); g_trace=out; fin->pos=0; init(d,m,*fin); g_trace=0; g_count_cov=true; return; }
  // init
  bool ok=false; ch.start();
  do{ memset(&m,0,sizeof m); d.reset(); ch.pos=0; int r=init(d,m,ch); save(d,m,s); if(r==OK_ && !memcmp(s,arena+(u64)path[n-1]*NW_,NW_*8)){ ok=true; break; } }while(ch.next());
  if(!ok) die("replay: init not found");
  { memset(&m,0,sizeof m); d.reset(); ch.pos=0; g_trace=out; init(d,m,ch); g_trace=0; }
  for(u64 k=n-1;k-->0;){
    const u64* from=arena+(u64)path[k+1]*NW_; const u64* to=arena+(u64)path[k]*NW_;
    ok=false; ch.start();
    do{ load(d,m,from); ch.pos=0; int r=step(d,m,ch); save(d,m,s); if(r==OK_ && !memcmp(s,to,NW_*8)){ ok=true; break; } }while(ch.next());
    if(!ok) die("replay: successor not found (nondeterministic harness)");
    load(d,m,from); ch.pos=0; g_trace=out; step(d,m,ch); g_trace=0;
  }
  if(fin){ load(d,m,arena+(u64)target*NW_); fin->pos=0; g_trace=out; step(d,m,*fin); g_trace=0; }
  free(path);
  if(out && !fin){      // extend the path by a deterministic pseudo-random walk (conformance material only, decides nothing)
    u64 cur[NW_]; memcpy(cur,arena+(u64)target*NW_,NW_*8); static Ch wc; u64 seed=0x1234567ull*(target+1)+99991;
    for(int k=0,fails=0;k<g_walk && fails<20;){
      load(d,m,cur); wc.start(); wc.rnd=seed=seed*6364136223846793005ull+1442695040888963407ull; if(!wc.rnd) wc.rnd=1;
      int r=step(d,m,wc);
      wc.rnd=0;
      if(r!=OK_){ fails++; continue; }
      u64 nxt[NW_]; save(d,m,nxt);
      load(d,m,cur); wc.pos=0; g_trace=out; step(d,m,wc); g_trace=0;
      memcpy(cur,nxt,NW_*8); k++; fails=0;
    }
  }
  g_count_cov=true;
}
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

int main(int argc,char**argv){
  cap = strtoull(argv[1],0,10); u64 maxdepth=strtoull(argv[2],0,10); double tlimit=atof(argv[3]); int ntr=atoi(argv[4]); const char* pre=argv[5]; g_walk=argc>6?atoi(argv[6]):0;
  double t0=now();
  if(cap>4000000000ull) cap=4000000000ull;
  u64 extra=cap/4<400000?cap/4:400000;      // room for the depth-first continuation of a capped exploration
  for(;;){                                  // where address space is limited, take what there is (the cap is then reported as reached)
    arena=(u64*)mmap(0,(cap+extra)*NW_*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(arena!=MAP_FAILED) break;
    if(cap<100000) die("mmap");
    cap/=2;
  }
  parent=(u32*)mmap(0,(cap+extra)*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(parent==MAP_FAILED) die("mmap");
  tmask=(1<<16)-1; table=(u32*)calloc(tmask+1,4);
  static D d; static Mon m; u64 s[NW_]; static Ch ch; u64 trans=0, pruned=0; bool viol=false, capped=false; u64 depth=0, done_depth=0;
  u32 vstate=~0u; bool vinit=false; u64 maxfan=0;
  ch.start();
  do{ memset(&m,0,sizeof m); d.reset(); ch.pos=0; g_msg=0; int r=init(d,m,ch); if(r==VIOL_){ viol=true; vinit=true; break; } if(r==PRUNE_) continue; save(d,m,s); insert(s,~0u); }while(ch.next());
  u64 lvl_start=0, lvl_end=nstates; bool exhausted=false;
  while(!viol){
    if(lvl_start==lvl_end){ exhausted=true; break; }
    if(depth>=maxdepth) break;
    for(u64 i=lvl_start;i<lvl_end && !viol && !capped;i++){
      if((i&255)==0 && tlimit>0 && now()-t0>tlimit){ capped=true; break; }
      ch.start(); u64 fan=0;
      do{
        load(d,m,arena+i*NW_); ch.pos=0; g_msg=0;
        int r=step(d,m,ch); fan++;
        if(r==PRUNE_){ pruned++; continue; }
        trans++;
        if(r==VIOL_){ viol=true; vstate=(u32)i; break; }
        save(d,m,s); insert(s,(u32)i);
        if(full()){ capped=true; break; }
      }while(ch.next());
      if(fan>maxfan) maxfan=fan;
    }
    if(viol||capped) break;
    depth++; done_depth=depth; lvl_start=lvl_end; lvl_end=nstates;
  }
  // The breadth-first part hit its state bound: continue depth-first from its frontier.  Every successor of a visited
  // state is generated and checked, one unseen successor is entered.  Bounded by half of the work done so far.
  u64 dives=0, dive_states=0, dive_trans=0, dive_depth=0;
  if(capped && !viol && nstates>=cap){
    u64 bfs_states=nstates; cap+=extra; u64 budget=trans/2+1000, maxlen=depth*4<5000?5000:depth*4, rs=88172645463325252ull; double td=now(), tmax=(td-t0)/2+2;
    u64 nxt[NW_]; bool stop=false;
    while(!viol && !stop && dive_trans<budget && nstates<cap && dives<100000){
      rs=rs*6364136223846793005ull+1442695040888963407ull;
      u64 cur = lvl_start + (rs>>33)%(bfs_states-lvl_start); dives++;
      for(u64 k=0;k<maxlen && !viol && dive_trans<budget && nstates<cap;k++){
        if((k&63)==0 && now()-td>tmax){ stop=true; break; }
        u64 seen=0; ch.start();
        do{
          load(d,m,arena+cur*NW_); ch.pos=0; g_msg=0;
          int r=step(d,m,ch);
          if(r==PRUNE_){ pruned++; continue; }
          trans++; dive_trans++;
          if(r==VIOL_){ viol=true; vstate=(u32)cur; break; }
          save(d,m,s);
          if(!known(s)){ seen++; rs=rs*6364136223846793005ull+1442695040888963407ull; if((rs>>33)%seen==0) memcpy(nxt,s,NW_*8); }
        }while(ch.next());
        if(viol || !seen) break;
        insert(nxt,(u32)cur); cur=nstates-1; if(k+1>dive_depth) dive_depth=k+1;
      }
    }
    dive_states=nstates-bfs_states;
  }
  char fn[512];
  static char vmsg[600]; if(viol) snprintf(vmsg,sizeof vmsg,"%s",g_msg?g_msg:"?");
  if(viol){ snprintf(fn,sizeof fn,"%s.viol",pre); FILE* f=fopen(fn,"w"); Ch c2=ch; c2.n=ch.pos; replay_path(vstate,f,&c2,vinit); fclose(f); }
  // conformance paths: the deepest state and evenly spaced ones
  u64 nt=0, tlen=0;
  if(nstates){ for(int k=0;k<ntr;k++){ u64 target = ntr<=1 ? nstates-1 : (u64)((__int128)(nstates-1)*(ntr-1-k)/(ntr-1)); if(k>0 && nstates<=(u64)k) break;
      snprintf(fn,sizeof fn,"%s.tr%d",pre,k); FILE* f=fopen(fn,"w"); u64 g0=g_ticks; (void)g0; replay_path((u32)target,f,0,false); tlen+=ftell(f); fclose(f); nt++;
      if(tlen>24000000ull) break; } }
  snprintf(fn,sizeof fn,"%s.json",pre); FILE* f=fopen(fn,"w");
  fprintf(f,"{\"states\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"depth\":%llu,\"exhaustive\":%s,\"capped\":%s,\"violation\":%s,\"state_bits\":%d,\"mon_bytes\":%d,\"max_fanout\":%llu,\"traces\":%llu,\"wall\":%.2f,\"dives\":%llu,\"dive_states\":%llu,\"dive_depth\":%llu,\"covers\":{",
    (unsigned long long)nstates,(unsigned long long)trans,(unsigned long long)pruned,(unsigned long long)done_depth,exhausted?"true":"false",capped?"true":"false",viol?"true":"false",D::STATE_BITS_,(int)sizeof(Mon),(unsigned long long)maxfan,(unsigned long long)nt,now()-t0,(unsigned long long)dives,(unsigned long long)dive_states,(unsigned long long)dive_depth);
  for(int i=0;i<cov_n;i++) fprintf(f,"%s\"%s\":%llu",i?",":"",cov_name[i],(unsigned long long)cov_cnt[i]);
  fprintf(f,"},\"message\":\"");
  for(char*p=vmsg;*p;p++){ if(*p=='"'||*p=='\\') fputc('\\',f); if(*p>=32) fputc(*p,f); }
  fprintf(f,"\"}\n"); fclose(f);
  return 0;
}

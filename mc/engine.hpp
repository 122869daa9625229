// Explicit-state explorer.  The including file provides, before this header's second half:
//   struct D   (generated transition function of the real design)
//   struct Mon (POD oracle/environment state)       -- part of the explored state
//   int init(D&, Mon&, Ch&), int step(D&, Mon&, Ch&)
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <sys/mman.h>
typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32;

[[noreturn]] static void die(const char* m){ fprintf(stderr, "ENGINE-ERROR %s\n", m); exit(9); }
[[noreturn]] static void comb_loop(){ die("combinational loop does not settle"); }
template<class I> static inline u64 CLAMP(I i, u64 n){ return (i < (I)0 || i >= (I)n) ? n-1 : (u64)i; }
template<class T> static inline T SHR(T v, i64 n){ return n >= (i64)sizeof(T)*8 ? (v < 0 ? (T)-1 : (T)0) : (T)(v >> n); }
template<class T> static inline T SHL(T v, i64 n){ return n >= (i64)sizeof(T)*8 ? (T)0 : (T)((v) << n); }
template<class T> static inline T FDIV(T a, T b){ if(b==0) return 0; T q=a/b, r=a%b; return (r!=0 && ((r<0)!=(b<0))) ? q-1 : q; }
template<class T> static inline T FMOD(T a, T b){ if(b==0) return 0; T r=a%b; return (r!=0 && ((r<0)!=(b<0))) ? r+b : r; }
template<class T> static inline i64 PARITY(T v){ i64 p=0; while(v!=0){ p ^= (i64)(v&1); v = v>>1; } return p; }
template<> inline i64 PARITY<i64>(i64 v){ return __builtin_parityll((u64)v); }
static inline void PUT(u64* b, int off, int w, u64 v){
  if(w<64) v &= ((u64)1<<w)-1;
  b[off>>6] |= v << (off&63);
  if((off&63)+w > 64) b[(off>>6)+1] |= v >> (64-(off&63));
}
static inline u64 GET(const u64* b, int off, int w){
  u64 v = b[off>>6] >> (off&63);
  if((off&63)+w > 64) v |= b[(off>>6)+1] << (64-(off&63));
  if(w<64) v &= ((u64)1<<w)-1;
  return v;
}
template<class T> static inline void PUTW(u64* b, int off, int w, T v){
  while(w>0){ int k = w<64?w:64; PUT(b, off, k, (u64)v); v = v >> 63; v = v >> 1; off+=k; w-=k; }
}
template<class T> static inline T GETW(const u64* b, int off, int w){
  T r=0; int o=0; while(w>0){ int k = w<64?w:64; r |= ((T)GET(b, off, k)) << o; o+=k; off+=k; w-=k; } return r;
}
template<class T> static void DUMPV(FILE* f, T v, int w){
  if(w<=64){ u64 x=(u64)v; if(w<64) x &= ((u64)1<<w)-1; fprintf(f, "%llx ", (unsigned long long)x); return; }
  int n=(w+63)/64; bool lead=true;
  for(int i=n-1;i>=0;i--){ T y=v; for(int k=0;k<i;k++){ y = y>>63; y=y>>1; } u64 x=(u64)y;
    int ww = w-64*i; if(ww<64) x &= ((u64)1<<ww)-1;
    if(lead){ if(x||i==0){ fprintf(f,"%llx",(unsigned long long)x); lead=false; } }
    else fprintf(f,"%016llx",(unsigned long long)x); }
  fputc(' ', f);
}

struct Ch {            // nondeterministic chooser: odometer over choice vectors
  int pos=0, n=0; u64 rnd=0; u32 val[512]; u32 lim[512];
  u32 operator()(u32 k){
    if(k==0) die("choice with 0 alternatives");
    if(pos==n){ if(n>=512) die("choice vector too long"); val[n]=0; lim[n]=k; if(rnd){ rnd=rnd*6364136223846793005ull+1442695040888963407ull; val[n]=(u32)((rnd>>33)%k); } n++; }
    else if(lim[pos]!=k) die("nondeterministic replay of a choice prefix");
    return val[pos++];
  }
  bool next(){ // advance to next vector; false when exhausted
    n=pos;
    while(n>0){ if(++val[n-1]<lim[n-1]){ pos=0; return true; } n--; }
    pos=0; return false;
  }
  void start(){ pos=0; n=0; }
};

enum { OK_=0, VIOL_=1, PRUNE_=2 };
static const char* g_msg = 0;
static char g_msgbuf[600];
static FILE* g_trace = 0;         // non-null: record every tick
static u64 g_ticks = 0;
#define MAXCOV 128
static const char* cov_name[MAXCOV]; static u64 cov_cnt[MAXCOV]; static int cov_n=0;
static bool g_count_cov = true;
static int cov_id(const char* s){ for(int i=0;i<cov_n;i++) if(!strcmp(cov_name[i],s)) return i;
  if(cov_n>=MAXCOV) die("too many covers"); cov_name[cov_n]=s; return cov_n++; }
#define COVER(name) do{ static int c_=cov_id(name); if(g_count_cov) cov_cnt[c_]++; }while(0)
#define COVERIF(c,name) do{ static int c_=cov_id(name); if((c) && g_count_cov) cov_cnt[c_]++; }while(0)
#define CHECK(c,...) do{ if(!(c)){ snprintf(g_msgbuf,sizeof g_msgbuf,__VA_ARGS__); g_msg=g_msgbuf; return VIOL_; } }while(0)
#define ASSUME(c) do{ if(!(c)) return PRUNE_; }while(0)
#define RUN(e) do{ int r_=(e); if(r_!=OK_) return r_; }while(0)

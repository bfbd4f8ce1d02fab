/* simomp: a deterministic stand-in for the OpenMP runtime and the ThreadSanitizer
 * runtime.  Extension modules of the code under test are compiled with
 *     gcc -fopenmp -fsanitize=thread
 * but linked against this library instead of libgomp/libtsan.  Every team thread is
 * a coroutine on the one real thread; every instrumented memory access inside a
 * parallel region is a point where the seeded scheduler may switch coroutine.
 *
 * Nothing here reads a clock or any other source of nondeterminism.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>
#include <ucontext.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>

#define MAXT 64
#define STACKSZ (512*1024)
#define likely(x) __builtin_expect(!!(x),1)
#define unlikely(x) __builtin_expect(!!(x),0)

/* ---------------------------------------------------------------- PRNG -- */
static uint64_t rs[2];
static inline uint64_t splitmix(uint64_t *x){uint64_t z=(*x+=0x9e3779b97f4a7c15ULL);
  z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
static inline uint64_t rnd(void){uint64_t s1=rs[0],s0=rs[1],r=s0+s1;rs[0]=s0;s1^=s1<<23;
  rs[1]=s1^s0^(s1>>18)^(s0>>5);return r;}
static inline uint64_t rndn(uint64_t n){return n?rnd()%n:0;}

static uint64_t ls;   /* layout stream: team sizes and chunking, independent of the schedule stream */
static inline uint64_t lrnd(void){ return splitmix(&ls); }
static inline uint64_t lrndn(uint64_t n){return n?lrnd()%n:0;}

/* -------------------------------------------------------------- config -- */
typedef struct {
  uint64_t seed;
  int enabled;          /* 0: every region runs with a team of one, no preemption        */
  int interval;         /* mean number of accesses between preemptions (<=0: none)       */
  int conflict_pct;     /* percent chance to preempt at an access to contended memory    */
  int team_mode;        /* 0 as requested, 1 random 1..requested, 2 exactly team_arg     */
  int team_arg;
  int default_team;     /* team size when the program asks for none (omp_get_max_threads)*/
  int sched_mode;       /* 0 static blocks, 1 random chunks random order, 2 cyclic, 3 reverse cyclic, 4 one thread takes all */
  int chunk;            /* chunk size for modes 1..3, <=0 random                          */
  int order_mode;       /* start order: 0 ascending, 1 descending, 2 random              */
  int replay;           /* 1: take preemptions from the list only                        */
  long long step_cap;   /* abort the process when one region exceeds it                  */
} simcfg_t;
static simcfg_t cfg = {1,0,0,0,0,0,4,0,0,0,0,200000000LL};

typedef struct { int region; int from; int to; long long step; } switch_t;
#define MAXSW 200000
static switch_t *swlog; static int nsw;         /* what happened                          */
static switch_t *swreplay; static int nswr, swr_pos;

typedef struct {
  long long regions, teams_gt1, switches, preemptions, conflict_preempts, steps, conflicts,
            shrunk_teams, chunks, barriers, lock_waits, io_faults, io_calls;
} simstat_t;
static simstat_t st;
static uint64_t trace_hash;
static inline void mixh(uint64_t v){trace_hash^=v+0x9e3779b97f4a7c15ULL+(trace_hash<<6)+(trace_hash>>2);}

/* --------------------------------------------------------------- team --- */
typedef struct ws { int nthr_left; int init; long next, end, incr; int kind; long chunk;
   long *starts,*ends; int nch, pos; int single_taken; } ws_t;
#define MAXWS 64
typedef struct { ucontext_t ctx; void *stack; int id; int done; int bar; void *waitlock;
   int wsidx; int nogil_hold; ws_t *curws; int static_pos; int err;
   char *lo,*hi; } co_t;
static co_t co[MAXT];
static ucontext_t main_ctx;
static int active;           /* inside a simulated region with >1 coroutines              */
static int nteam=1, cur=-1, inregion=0;
static long long step; static long long next_preempt; static int region_no;
static void (*team_fn)(void*); static void *team_data;
static ws_t wss[MAXWS];
static int bar_count;
static int nopreempt;

/* contended memory: exact open addressing table, one epoch per region */
typedef struct { uintptr_t a; uint32_t epoch; int8_t thr; uint8_t flags; } sh_t;
#define SHN (1u<<18)
static sh_t *sh; static uint32_t sh_epoch; static unsigned sh_cnt;

static void pick_next_preempt(void){
  if(cfg.replay||cfg.interval<=0){ next_preempt=-1; return; }
  /* geometric-ish: uniform on 1..2*interval */
  next_preempt = step + 1 + (long long)rndn(2*(uint64_t)cfg.interval);
}
static int runnable(int i){ return !co[i].done && !co[i].bar && !co[i].waitlock; }
static int choose(int exclude){
  int c[MAXT],n=0; for(int i=0;i<nteam;i++) if(i!=exclude&&runnable(i)) c[n++]=i;
  if(!n) return -1;
  if(cfg.replay) return c[0];
  return c[rndn(n)];
}
static void logsw(int from,int to){
  st.switches++; mixh(((uint64_t)region_no<<40)^((uint64_t)step<<8)^(uint64_t)(to+1));
  if(nsw<MAXSW){ swlog[nsw].region=region_no; swlog[nsw].from=from; swlog[nsw].to=to; swlog[nsw].step=step; nsw++; }
}
static void switch_to(int to){
  int from=cur; if(to==from) return; cur=to;
  swapcontext(&co[from].ctx,&co[to].ctx);
}
static void die(const char*msg){
  static const char p[]="SIMOMP-ABORT: "; ssize_t r=write(2,p,sizeof p-1); r=write(2,msg,strlen(msg)); r=write(2,"\n",1);(void)r; _exit(77);
}
static void preempt(int conflict){
  if(nopreempt||co[cur].nogil_hold) { pick_next_preempt(); return; }
  int to=choose(cur); pick_next_preempt();
  if(to<0) return;
  st.preemptions++; if(conflict) st.conflict_preempts++;
  logsw(cur,to); switch_to(to);
}
static int replay_pick(void){               /* recorded successor at this very step, or -1 */
  if(!cfg.replay) return -1;
  while(swr_pos<nswr && (swreplay[swr_pos].region<region_no ||
        (swreplay[swr_pos].region==region_no && swreplay[swr_pos].step<step))) swr_pos++;
  if(swr_pos<nswr && swreplay[swr_pos].region==region_no && swreplay[swr_pos].step==step){
    int to=swreplay[swr_pos].to; swr_pos++;
    if(to>=0&&to<nteam&&to!=cur&&runnable(to)) return to; }
  return -1;
}
static void yield_blocked(void){           /* current cannot proceed                      */
  int to=replay_pick(); if(to<0) to=choose(cur);
  if(to<0) die("deadlock: no runnable team thread");
  logsw(cur,to); switch_to(to);
}
static void replay_point(void){
  int to=replay_pick();
  if(to>=0&&!nopreempt&&!co[cur].nogil_hold){ st.preemptions++; logsw(cur,to); switch_to(to); }
}
static inline int own_stack(uintptr_t a){
  for(int i=0;i<nteam;i++) if(a>=(uintptr_t)co[i].lo&&a<(uintptr_t)co[i].hi) return 1;
  return 0;
}
static int touch(uintptr_t a,int w){        /* returns 1 when contended                    */
  a>>=3; if(own_stack(a<<3)) return 0;
  unsigned h=(unsigned)((a*0x9e3779b97f4a7c15ULL)>>46)&(SHN-1);
  for(;;){ sh_t*e=&sh[h];
    if(e->epoch!=sh_epoch){ if(sh_cnt>SHN/2) return 0; sh_cnt++; e->epoch=sh_epoch;e->a=a;e->thr=cur;e->flags=w?2:1; return 0; }
    if(e->a==a){ int c=0; if(e->thr!=cur){ if(w||(e->flags&2)){c=1;} e->flags|=4; }
      if(e->flags&8) c=1; if(c) e->flags|=8; e->thr=cur; e->flags|=w?2:1; return c; }
    h=(h+1)&(SHN-1); }
}
static void hook_slow(uintptr_t a,int w){
  step++; st.steps++;
  if(unlikely(step>cfg.step_cap)) die("step cap exceeded: no progress");
  int c=touch(a,w); if(c) st.conflicts++;
  if(cfg.replay){ replay_point(); return; }
  if(c && cfg.conflict_pct && (int)rndn(100)<cfg.conflict_pct){ preempt(1); return; }
  if(next_preempt>=0 && step>=next_preempt) preempt(0);
}
#define HOOK(a,w) do{ if(unlikely(active)) hook_slow((uintptr_t)(a),w); }while(0)
/* atomic accesses are scheduling points but never count as contended data */
static void hook_atomic(void){ step++; st.steps++; if(unlikely(step>cfg.step_cap)) die("step cap exceeded: no progress");
  if(cfg.replay){ replay_point(); return; } if(next_preempt>=0 && step>=next_preempt) preempt(0); }
#define HOOKA(a,w) do{ if(unlikely(active)) hook_atomic(); }while(0)

/* ---------------------------------------------------------- coroutines -- */
static void co_main(void){
  int me=cur;
  team_fn(team_data);
  me=cur; co[me].done=1;
  int to=replay_pick(); if(to<0) to=choose(me);
  if(to>=0){ logsw(me,to); cur=to; setcontext(&co[to].ctx); }
  for(int i=0;i<nteam;i++) if(!co[i].done) die("deadlock at end of region");
  setcontext(&main_ctx);
}
static void bar_release(void){ for(int i=0;i<nteam;i++) co[i].bar=0; bar_count=0; st.barriers++; sh_epoch++; sh_cnt=0; }
static void team_barrier(void){
  if(!active) return;
  bar_count++;
  int live=0; for(int i=0;i<nteam;i++) if(!co[i].done) live++;
  if(bar_count>=nteam|| bar_count>=live){ bar_release(); if(!cfg.replay) preempt(0); return; }
  co[cur].bar=1; yield_blocked();
}
static struct { int on; long s,e,i,c; int k; } pre;
static void ws_build(ws_t*w,long start,long end,long incr,long chunk,int kind);
static void run_team(void(*fn)(void*),void*data,unsigned want){
  region_no++; st.regions++; step=0;
  ls=cfg.seed^(0x5DEECE66DULL*(uint64_t)region_no); lrnd();
  int n=(int)want; if(n<=0) n=cfg.default_team; if(n>MAXT) n=MAXT;
  if(!cfg.enabled||inregion) n=1;
  else { int n0=n;
    if(cfg.team_mode==1) n=1+(int)lrndn(n); else if(cfg.team_mode==2&&cfg.team_arg<n) n=cfg.team_arg;
    if(n<1) n=1; if(n<n0) st.shrunk_teams++; }
  if(inregion){ /* nested region: serialised, legal */
    int sv=active; active=0; int svn=nteam,svc=cur; ws_t*svw=co[0].curws; (void)svw;
    nteam=1; fn(data); nteam=svn; cur=svc; active=sv; return; }
  inregion=1; nteam=n; bar_count=0; nopreempt=0;
  for(int i=0;i<MAXWS;i++){ free(wss[i].starts); free(wss[i].ends); } memset(wss,0,sizeof wss);
  for(int i=0;i<n;i++){ co[i].id=i; co[i].done=0; co[i].bar=0; co[i].waitlock=0; co[i].wsidx=0; co[i].nogil_hold=0; co[i].curws=0; }
  if(pre.on){ pre.on=0; ws_build(&wss[0],pre.s,pre.e,pre.i,pre.c,pre.k); for(int i=0;i<n;i++){co[i].curws=&wss[0];co[i].wsidx=1;co[i].static_pos=0;} }
  if(n==1){ cur=0; fn(data); cur=-1; inregion=0; nteam=1; return; }
  st.teams_gt1++; sh_epoch++; sh_cnt=0; mixh(0xABCD0000ULL+n);
  if(!sh) sh=calloc(SHN,sizeof *sh);
  for(int i=0;i<n;i++){
    if(!co[i].stack){ co[i].stack=mmap(0,STACKSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
      co[i].lo=co[i].stack; co[i].hi=co[i].lo+STACKSZ; }
    getcontext(&co[i].ctx); co[i].ctx.uc_stack.ss_sp=co[i].stack; co[i].ctx.uc_stack.ss_size=STACKSZ; co[i].ctx.uc_link=0;
    makecontext(&co[i].ctx,co_main,0);
  }
  team_fn=fn; team_data=data; pick_next_preempt();
  int first=0; if(cfg.order_mode==1) first=n-1; else if(cfg.order_mode==2) first=(int)lrndn(n);
  if(cfg.replay){ /* a logged start has step -1 */ 
    for(int i=0;i<nswr;i++) if(swreplay[i].region==region_no&&swreplay[i].step==-1){ first=swreplay[i].to; break; }
    if(first<0||first>=n) first=0; }
  { long long sv=step; step=-1; logsw(-1,first); step=sv; }
  cur=first; active=1;
  swapcontext(&main_ctx,&co[first].ctx);
  active=0; inregion=0; nteam=1; cur=-1;
}

/* ------------------------------------------------------- worksharing ---- */
static ws_t *enter_ws(void){
  int i=inregion?cur:0; if(i<0) i=0;
  int k=co[i].wsidx++; if(k>=MAXWS) die("too many worksharing constructs");
  ws_t*w=&wss[k]; co[i].curws=w; return w;
}
static void ws_build(ws_t*w,long start,long end,long incr,long chunk,int kind){
  /* kind 0: schedule left to the runtime; 1 static(chunk); 2 dynamic(chunk); 3 guided */
  ls=cfg.seed^(0x5DEECE66DULL*(uint64_t)region_no)^(0x1234567ULL*(uint64_t)(w-wss+1)); lrnd();
  long n = incr>0 ? (end-start+incr-1)/incr : (start-end-incr-1)/(-incr); if(n<0) n=0;
  w->init=1; w->nch=0; w->pos=0;
  int mode=cfg.enabled?cfg.sched_mode:0; if(kind==2||kind==3) mode= cfg.enabled?1:0;
  if(kind==1) mode=0;
  long c=chunk;
  w->starts=malloc(sizeof(long)*(n+nteam+1)); w->ends=malloc(sizeof(long)*(n+nteam+1));
  w->kind=0; w->chunk=mode;
  if(mode==0&&kind!=2&&kind!=3&&c<=0){ /* nteam contiguous blocks, one per thread */
    long q=n/nteam,r=n%nteam,p=0;
    for(int t=0;t<nteam;t++){ long len=q+(t<r); w->starts[t]=start+p*incr; w->ends[t]=start+(p+len)*incr; p+=len; }
    w->nch=nteam; return; }
  if(mode==4){ w->starts[0]=start; w->ends[0]=start+n*incr; w->nch=1; return; }
  long p=0; int k=0;
  while(p<n){ long len=c>0?c:(cfg.chunk>0?cfg.chunk:1+(long)lrndn(4)); if(p+len>n) len=n-p;
    w->starts[k]=start+p*incr; w->ends[k]=start+(p+len)*incr; k++; p+=len; }
  w->nch=k;
  if(mode==1&&kind!=2&&kind!=3) for(int i=k-1;i>0;i--){ int j=(int)lrndn(i+1); long a=w->starts[i];w->starts[i]=w->starts[j];w->starts[j]=a; a=w->ends[i];w->ends[i]=w->ends[j];w->ends[j]=a; }
  if(mode==3) for(int i=0,j=k-1;i<j;i++,j--){ long a=w->starts[i];w->starts[i]=w->starts[j];w->starts[j]=a; a=w->ends[i];w->ends[i]=w->ends[j];w->ends[j]=a; }
}
static bool ws_next(ws_t*w,long*is,long*ie){
  int i=cur<0?0:cur; HOOK(&w->pos,0);
  if(w->chunk==0&&w->nch==nteam&&w->kind==0){ /* static blocks */
    if(co[i].static_pos) return false; co[i].static_pos=1;
    *is=w->starts[i]; *ie=w->ends[i]; if(*is==*ie) return false; st.chunks++; return true; }
  if(w->pos>=w->nch) return false;
  *is=w->starts[w->pos]; *ie=w->ends[w->pos]; w->pos++; st.chunks++; mixh(0x77000000ULL^(*is<<4)^i); return true;
}
static bool loop_start(long start,long end,long incr,long chunk,int kind,long*is,long*ie){
  ws_t*w=enter_ws(); int i=cur<0?0:cur; co[i].static_pos=0;
  if(!w->init) ws_build(w,start,end,incr,chunk,kind);
  return ws_next(w,is,ie);
}
static bool loop_next(long*is,long*ie){ int i=cur<0?0:cur; return ws_next(co[i].curws,is,ie); }

void GOMP_parallel(void(*fn)(void*),void*data,unsigned n,unsigned flags){ (void)flags; run_team(fn,data,n); }
void GOMP_barrier(void){ team_barrier(); }
bool GOMP_barrier_cancel(void){ team_barrier(); return false; }
#define LOOPS(name,kind) \
 bool GOMP_loop_##name##_start(long s,long e,long inc,long c,long*is,long*ie){return loop_start(s,e,inc,c,kind,is,ie);} \
 bool GOMP_loop_##name##_next(long*is,long*ie){return loop_next(is,ie);}
LOOPS(static,1) LOOPS(dynamic,2) LOOPS(guided,3) LOOPS(nonmonotonic_dynamic,2) LOOPS(nonmonotonic_guided,3)
#define LOOPR(name) \
 bool GOMP_loop_##name##_start(long s,long e,long inc,long*is,long*ie){return loop_start(s,e,inc,0,0,is,ie);} \
 bool GOMP_loop_##name##_next(long*is,long*ie){return loop_next(is,ie);}
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void){ team_barrier(); }
void GOMP_loop_end_nowait(void){}
bool GOMP_loop_end_cancel(void){ team_barrier(); return false; }
static void pl_run(void(*fn)(void*),void*d,unsigned n,long s,long e,long inc,long c,int k){
  pre.on=1; pre.s=s; pre.e=e; pre.i=inc; pre.c=c; pre.k=k; run_team(fn,d,n);
}
#define PL(name,kind) void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned f){(void)f;pl_run(fn,d,n,s,e,i,c,kind);}
PL(static,1) PL(dynamic,2) PL(guided,3) PL(nonmonotonic_dynamic,2) PL(nonmonotonic_guided,3)
#define PLR(name) void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,unsigned f){(void)f;pl_run(fn,d,n,s,e,i,0,0);}
PLR(runtime) PLR(maybe_nonmonotonic_runtime)
bool GOMP_single_start(void){ ws_t*w=enter_ws(); HOOK(&w->single_taken,1); if(w->single_taken) return false; w->single_taken=1; return true; }
static char crit_anon, atomic_anon; static void* held[256]; static int heldby[256]; static int nheld;
static void lock_acquire(void*l){
  if(!active) return;
  for(;;){ int f=-1; for(int i=0;i<nheld;i++) if(held[i]==l) f=heldby[i];
    if(f<0) break; if(f==cur) die("self deadlock on a lock");
    st.lock_waits++; co[cur].waitlock=l; yield_blocked(); }
  held[nheld]=l; heldby[nheld]=cur; nheld++; HOOK(l,1);
}
static void lock_release(void*l){
  if(!active) return;
  for(int i=0;i<nheld;i++) if(held[i]==l){ held[i]=held[nheld-1]; heldby[i]=heldby[nheld-1]; nheld--; break; }
  for(int i=0;i<nteam;i++) if(co[i].waitlock==l) co[i].waitlock=0;
  HOOK(l,1);
}
void GOMP_critical_start(void){lock_acquire(&crit_anon);} void GOMP_critical_end(void){lock_release(&crit_anon);}
void GOMP_critical_name_start(void**p){lock_acquire(p);} void GOMP_critical_name_end(void**p){lock_release(p);}
void GOMP_atomic_start(void){lock_acquire(&atomic_anon);} void GOMP_atomic_end(void){lock_release(&atomic_anon);}
void omp_init_lock(void*l){(void)l;} void omp_destroy_lock(void*l){(void)l;} void omp_set_lock(void*l){lock_acquire(l);} void omp_unset_lock(void*l){lock_release(l);}
int omp_test_lock(void*l){ for(int i=0;i<nheld;i++) if(held[i]==l) return 0; lock_acquire(l); return 1; }
int omp_get_thread_num(void){ return cur<0?0:(inregion&&nteam>1?cur:0); }
int omp_get_num_threads(void){ return inregion?nteam:1; }
int omp_get_max_threads(void){ return cfg.default_team; }
int omp_get_num_procs(void){ return cfg.default_team; }
int omp_in_parallel(void){ return inregion; }
int omp_get_dynamic(void){return 0;} int omp_get_nested(void){return 0;} int omp_get_level(void){return inregion;}
int omp_get_thread_limit(void){return MAXT;}
void omp_set_num_threads(int n){ cfg.default_team=n>0?n:1; }
void omp_set_dynamic(int n){(void)n;} void omp_set_nested(int n){(void)n;}
void omp_get_schedule(int*k,int*c){*k=1;*c=0;} void omp_set_schedule(int k,int c){(void)k;(void)c;}
double omp_get_wtime(void){return 0;}

/* ----------------------------------------------------------- GIL hooks -- */
/* A coroutine that holds the GIL must not be switched out.  */
#define REAL(ret,name,args) static ret(*real)args; if(!real) real=(ret(*)args)dlsym(RTLD_DEFAULT,#name)
int sim_PyGILState_Ensure(void){ REAL(int,PyGILState_Ensure,(void)); int r=real(); if(active&&cur>=0) co[cur].nogil_hold=1; return r; }
void sim_PyGILState_Release(int s){ REAL(void,PyGILState_Release,(int)); real(s); if(active&&cur>=0&&s==1) co[cur].nogil_hold=0; }
void* sim_PyEval_SaveThread(void){ REAL(void*,PyEval_SaveThread,(void)); void*r=real(); if(active&&cur>=0) co[cur].nogil_hold=0; return r; }
void sim_PyEval_RestoreThread(void*t){ REAL(void,PyEval_RestoreThread,(void*)); real(t); if(active&&cur>=0) co[cur].nogil_hold=1; }

/* ---------------------------------------------------------- tsan hooks -- */
void __tsan_init(void){} void __tsan_func_entry(void*p){(void)p;} void __tsan_func_exit(void){}
#define RW(n) void __tsan_read##n(void*a){HOOK(a,0);} void __tsan_write##n(void*a){HOOK(a,1);} \
 void __tsan_unaligned_read##n(void*a){HOOK(a,0);} void __tsan_unaligned_write##n(void*a){HOOK(a,1);} \
 void __tsan_volatile_read##n(void*a){HOOK(a,0);} void __tsan_volatile_write##n(void*a){HOOK(a,1);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*a,size_t n){(void)n;HOOK(a,0);} void __tsan_write_range(void*a,size_t n){(void)n;HOOK(a,1);}
void __tsan_vptr_update(void**a,void*v){(void)v;HOOK(a,1);} void __tsan_vptr_read(void**a){HOOK(a,0);}
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64; typedef unsigned __int128 a128;
#define AT(n,T) \
 T __tsan_atomic##n##_load(const volatile T*a,int o){(void)o;HOOKA(a,0);return *a;} \
 void __tsan_atomic##n##_store(volatile T*a,T v,int o){(void)o;HOOKA(a,1);*a=v;} \
 T __tsan_atomic##n##_exchange(volatile T*a,T v,int o){(void)o;HOOKA(a,1);T r=*a;*a=v;return r;} \
 T __tsan_atomic##n##_fetch_add(volatile T*a,T v,int o){(void)o;HOOKA(a,1);T r=*a;*a=r+v;return r;} \
 T __tsan_atomic##n##_fetch_sub(volatile T*a,T v,int o){(void)o;HOOKA(a,1);T r=*a;*a=r-v;return r;} \
 T __tsan_atomic##n##_fetch_and(volatile T*a,T v,int o){(void)o;HOOKA(a,1);T r=*a;*a=r&v;return r;} \
 T __tsan_atomic##n##_fetch_or(volatile T*a,T v,int o){(void)o;HOOKA(a,1);T r=*a;*a=r|v;return r;} \
 T __tsan_atomic##n##_fetch_xor(volatile T*a,T v,int o){(void)o;HOOKA(a,1);T r=*a;*a=r^v;return r;} \
 T __tsan_atomic##n##_fetch_nand(volatile T*a,T v,int o){(void)o;HOOKA(a,1);T r=*a;*a=~(r&v);return r;} \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T*a,T*c,T v,int o,int f){(void)o;(void)f;HOOKA(a,1);if(*a==*c){*a=v;return 1;}*c=*a;return 0;} \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T*a,T*c,T v,int o,int f){(void)o;(void)f;HOOKA(a,1);if(*a==*c){*a=v;return 1;}*c=*a;return 0;} \
 T __tsan_atomic##n##_compare_exchange_val(volatile T*a,T c,T v,int o,int f){(void)o;(void)f;HOOKA(a,1);T r=*a;if(r==c)*a=v;return r;}
AT(8,a8) AT(16,a16) AT(32,a32) AT(64,a64) AT(128,a128)
void __tsan_atomic_thread_fence(int o){(void)o;} void __tsan_atomic_signal_fence(int o){(void)o;}

/* ------------------------------------------- C library calls with faults -- */
/* modules are compiled with -Dfopen=sim_fopen etc.; plan: fail the k-th call of a kind */
enum {F_FOPEN,F_FREAD_SHORT,F_FREAD_ERR,F_MALLOC,F_FSEEK,F_FWRITE,F_FCLOSE,F_FREAD_STALL,F_N};
static long long io_count[F_N], io_fail_at[F_N], io_fail_n[F_N]; static int io_errno[F_N]; static long long io_fired[F_N]; static int io_on;
static int io_hit(int k){ if(!io_on) return 0; long long c=++io_count[k]; st.io_calls++;
  if(io_fail_at[k]>0 && c>=io_fail_at[k] && c<io_fail_at[k]+io_fail_n[k]){ io_fired[k]++; st.io_faults++; return 1; } return 0; }
FILE* sim_fopen(const char*p,const char*m){ HOOK(p,0); if(io_hit(F_FOPEN)){ errno=io_errno[F_FOPEN]; return NULL; } return fopen(p,m); }
size_t sim_fread(void*b,size_t s,size_t n,FILE*f){ HOOK(b,1);
  if(io_hit(F_FREAD_ERR)){ errno=io_errno[F_FREAD_ERR]; return 0; }
  if(io_hit(F_FREAD_SHORT)&&n*s>1){ size_t k=(n*s)/2; size_t r=fread(b,1,k,f); return r/s; }
  size_t r=fread(b,s,n,f); HOOK(b,1); return r; }
void* sim_malloc(size_t n){ if(io_hit(F_MALLOC)){ errno=12; return NULL; } void*p=malloc(n); HOOK(p,1); return p; }
int sim_fseek(FILE*f,long o,int w){ HOOK(f,1); if(io_hit(F_FSEEK)){ errno=io_errno[F_FSEEK]; return -1; } int r=fseek(f,o,w); HOOK(f,1); return r; }
size_t sim_fwrite(const void*b,size_t s,size_t n,FILE*f){ HOOK(b,0); if(io_hit(F_FWRITE)){ errno=io_errno[F_FWRITE]; return n/2; } return fwrite(b,s,n,f);}
int sim_fclose(FILE*f){ if(io_hit(F_FCLOSE)){ fclose(f); errno=io_errno[F_FCLOSE]; return EOF; } return fclose(f); }
void sim_io_reset(int on){ memset(io_count,0,sizeof io_count); memset(io_fail_at,0,sizeof io_fail_at); memset(io_fired,0,sizeof io_fired); io_on=on; }
void sim_io_plan(int kind,long long at,long long n,int err){ io_fail_at[kind]=at; io_fail_n[kind]=n; io_errno[kind]=err; }
long long sim_io_fired(int k){ return io_fired[k]; } long long sim_io_count(int k){ return io_count[k]; }

/* -------------------------------------------------------------- control -- */
void sim_configure(const simcfg_t*c){ cfg=*c; uint64_t x=c->seed; rs[0]=splitmix(&x); rs[1]=splitmix(&x)|1;
  if(!swlog) swlog=malloc(sizeof(switch_t)*MAXSW); nsw=0; swr_pos=0; region_no=0; trace_hash=0; nheld=0; }
void sim_set_replay(const switch_t*s,int n){ free(swreplay); swreplay=malloc(sizeof(switch_t)*(n?n:1)); memcpy(swreplay,s,sizeof(switch_t)*n); nswr=n; swr_pos=0; }
int sim_log(switch_t*out,int max){ int n=nsw<max?nsw:max; memcpy(out,swlog,sizeof(switch_t)*n); return nsw; }
void sim_stats(simstat_t*o){ *o=st; } void sim_stats_reset(void){ memset(&st,0,sizeof st); }
uint64_t sim_trace_hash(void){ return trace_hash; }

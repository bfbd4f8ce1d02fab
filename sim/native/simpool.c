/* simpool: a deterministic stand-in for the thread pool behind numba's parallel
 * gufuncs and parfors.  Work is cut into chunks and the chunks are executed one after
 * another in an order drawn from a seed, on the calling thread. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
static uint64_t s0=1; static int enabled=0, nthreads=4, mode=0;
static long long calls, chunks, splits; static uint64_t h;
static uint64_t rnd(void){uint64_t z=(s0+=0x9e3779b97f4a7c15ULL);z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL;z=(z^(z>>27))*0x94d049bb133111ebULL;return z^(z>>31);}
static void mixh(uint64_t v){h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2);}
void simpool_config(uint64_t seed,int on,int nt,int md){s0=seed;enabled=on;nthreads=nt>0?nt:1;mode=md;h=0;}
void simpool_stats(long long*o){o[0]=calls;o[1]=chunks;o[2]=splits;}
void simpool_stats_reset(void){calls=chunks=splits=0;}
uint64_t simpool_hash(void){return h;}
typedef void (*fn_t)(char**,size_t*,size_t*,void*);
void simpool_parallel_for(void*fn,char**args,size_t*dims,size_t*steps,void*data,size_t inner_ndim,size_t nargs,int nt){
  size_t n=dims[0],*st=malloc((n+2)*2*sizeof(size_t)),*ln=st+n+2; size_t k=0,p=0; calls++;
  if(!enabled||n==0){st[0]=0;ln[0]=n;k=1;}
  else if(mode==0){ size_t q=n/nthreads,r=n%nthreads; for(int t=0;t<nthreads;t++){size_t l=q+((size_t)t<r); if(l){st[k]=p;ln[k]=l;k++;p+=l;}} }
  else { size_t mx= mode==1?1: mode==2?4: (n/nthreads+1); if(mx<1) mx=1;
    while(p<n){ size_t l=1+rnd()%mx; if(p+l>n) l=n-p; st[k]=p;ln[k]=l;k++;p+=l; } }
  if(enabled) for(size_t i=k;i>1;i--){ size_t j=rnd()%i,t; t=st[i-1];st[i-1]=st[j];st[j]=t; t=ln[i-1];ln[i-1]=ln[j];ln[j]=t; }
  if(k>1) splits++;
  size_t *d=malloc((inner_ndim+1)*sizeof(size_t)); char**a=malloc(nargs*sizeof(char*));
  for(size_t c=0;c<k;c++){ memcpy(d,dims,(inner_ndim+1)*sizeof(size_t)); d[0]=ln[c];
    for(size_t i=0;i<nargs;i++) a[i]=args[i]+st[c]*steps[i];
    chunks++; mixh((st[c]<<20)^ln[c]); ((fn_t)fn)(a,d,steps,data); }
  free(st);free(d);free(a);
}

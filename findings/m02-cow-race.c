#define _GNU_SOURCE
#include <rseq/mempool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <stdint.h>
#include <stdatomic.h>
#define NC 1024
static char *A; static atomic_int go; static size_t stride=4096; static atomic_int wpos;
static void *w(void *x){ while(!atomic_load(&go)); for(int c=0;c<NC;c++){ *(volatile char*)(A+c*stride)=1; } return 0; }
int main(int ac,char**av){ int rounds=ac>1?atoi(av[1]):200; long bad=0; int ilen=2048;
 for(int r=0;r<rounds;r++){
  struct rseq_mempool_attr*a=rseq_mempool_attr_create(); rseq_mempool_attr_set_percpu(a,stride,NC); rseq_mempool_attr_set_populate_policy(a,RSEQ_MEMPOOL_POPULATE_COW_INIT);
  struct rseq_mempool*p=rseq_mempool_create("x",ilen,a); rseq_mempool_attr_destroy(a);
  A=(char*)rseq_mempool_percpu_malloc(p);
  volatile int s=0; for(int c=0;c<NC;c++) s+=*(volatile char*)(A+c*stride);
  atomic_store(&go,0); pthread_t t; pthread_create(&t,0,w,0);
  char buf[2048]; memset(buf,0x77,sizeof buf);
  for(volatile int k=0;k<(r%50)*100;k++); atomic_store(&go,1); for(volatile int k=0;k<(r%37)*300;k++);
  char*B=(char*)rseq_mempool_percpu_malloc_init(p,buf,ilen);
  pthread_join(t,0);
  for(int c=0;c<NC;c++) if(memcmp(B+c*stride,buf,ilen)){bad++; if(bad<5)printf("round %d cpu %d stale %x\n",r,c,(unsigned char)B[c*stride]);}
  rseq_mempool_destroy(p);
 } printf("bad %ld\n",bad); return bad!=0; }

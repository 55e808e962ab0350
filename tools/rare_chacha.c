// gcc -O3 -march=native; run as: rare_chacha FIRST LAST; the seeds found go into mc/rare_words.py.
// Search for ChaCha20 inputs at which one addition, xor or output addition gives
// one of the words 0, 0xffffffff, 0x7fffffff, 0x80000000.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
typedef uint32_t v __attribute__((vector_size(32)));
typedef int32_t s __attribute__((vector_size(32)));
#define N 656
static inline uint32_t mix1(uint32_t x){x^=x>>16;x*=0x85ebca6b;x^=x>>13;x*=0xc2b2ae35;x^=x>>16;return x;}
static inline v mix(v x){x^=x>>16;x*=0x85ebca6b;x^=x>>13;x*=0xc2b2ae35;x^=x>>16;return x;}
static const int Q[8][4]={{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
static uint64_t found[N][4]; static char have[N][4]; static long nf;
static void scalar(uint32_t hi,uint32_t lo){
  uint32_t x[16]={0x61707865,0x3320646e,0x79622d32,0x6b206574},y[16]; int e=0;
  for(int j=0;j<12;j++)x[4+j]=mix1(lo^mix1(hi*16+j+1));
  memcpy(y,x,64);
#define T(w) do{int k=(w)==0?0:(w)==0xffffffffu?1:(w)==0x7fffffffu?2:(w)==0x80000000u?3:-1; if(k>=0&&!have[e][k]){have[e][k]=1;found[e][k]=((uint64_t)hi<<32)|lo;nf++;} e++;}while(0)
#define ST(a,b,d,r) x[a]+=x[b];T(x[a]);x[d]^=x[a];T(x[d]);x[d]=(x[d]<<r)|(x[d]>>(32-r));
  for(int r=0;r<10;r++)for(int q=0;q<8;q++){int a=Q[q][0],b=Q[q][1],c=Q[q][2],d=Q[q][3];ST(a,b,d,16)ST(c,d,b,12)ST(a,b,d,8)ST(c,d,b,7)}
  for(int j=0;j<16;j++){y[j]+=x[j];T(y[j]);}
}
int main(int c,char**a){
  uint32_t hi0=atoi(a[1]),hi1=atoi(a[2]);
  for(uint32_t hi=hi0;hi<hi1;hi++){
   for(uint64_t lo=0;lo<(1ull<<32);lo+=8){
    v x[16],y[16],L; s h={0}; 
    for(int i=0;i<8;i++)L[i]=lo+i;
    for(int j=0;j<4;j++)x[j]=(v){0}+((uint32_t[]){0x61707865,0x3320646e,0x79622d32,0x6b206574})[j];
    for(int j=0;j<12;j++)x[4+j]=mix(L^mix1(hi*16+j+1));
    memcpy(y,x,sizeof x);
    // w in {0,ffffffff,7fffffff,80000000}  <=>  (w + 0x40000001)*... : w<<1 in {0,fffffffe} and top/bottom rule; cheap filter then exact in scalar
#define F(w) {v t=(w)+1; h|=(s)((t&0x7fffffff)<2);}
#define SV(a,b,d,r) x[a]+=x[b];F(x[a])x[d]^=x[a];F(x[d])x[d]=(x[d]<<r)|(x[d]>>(32-r));
#define QV(a,b,c,d) SV(a,b,d,16)SV(c,d,b,12)SV(a,b,d,8)SV(c,d,b,7)
    for(int r=0;r<10;r++){QV(0,4,8,12)QV(1,5,9,13)QV(2,6,10,14)QV(3,7,11,15)QV(0,5,10,15)QV(1,6,11,12)QV(2,7,8,13)QV(3,4,9,14)}
    for(int j=0;j<16;j++){y[j]+=x[j];F(y[j])}
    for(int i=0;i<8;i++)if(h[i])scalar(hi,(uint32_t)(lo+i));
   }
   fprintf(stderr,"hi %u found %ld of %d\n",hi,nf,N*4);
  }
  for(int e=0;e<N;e++)for(int k=0;k<4;k++)if(have[e][k])printf("%d %d %016llx\n",e,k,(unsigned long long)found[e][k]);
}

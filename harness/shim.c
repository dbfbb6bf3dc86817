/* Native replay shim: sym_* read their values from the file named by SYM_INPUT. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
static unsigned char *in; static long inlen, inpos; static int loaded;
static void load(void){ if(loaded) return; loaded=1; const char*f=getenv("SYM_INPUT"); if(!f) return;
  FILE*fp=fopen(f,"rb"); if(!fp){perror(f);_Exit(99);} fseek(fp,0,SEEK_END); inlen=ftell(fp); rewind(fp);
  in=malloc(inlen+1); if(fread(in,1,inlen,fp)!=(size_t)inlen) _Exit(99); fclose(fp);}
void sym_bytes(unsigned char*p,size_t n){ load(); for(size_t i=0;i<n;i++) p[i]= inpos<inlen? in[inpos++]:0; }
uint64_t sym_choice(uint64_t n){ unsigned char b[8]; sym_bytes(b,8); uint64_t v; memcpy(&v,b,8); if(v>=n){ fprintf(stderr,"SYM choice out of range\n"); _Exit(98);} return v; }
void sym_assume(bool c){ if(!c){ fprintf(stderr,"SYM assume failed\n"); _Exit(97);} }
void sym_check(bool c,uint32_t id){ if(!c){ fprintf(stderr,"SYM check %u failed\n",id); printf("SYM-CHECK-FAILED %u\n",id); fflush(stdout); _Exit(77);} }
void sym_observe(uint32_t t,uint64_t v){ printf("OBS %u %llu\n",t,(unsigned long long)v); }
void sym_reach(uint32_t id){ printf("REACH %u\n",id); }
void sym_opt(uint64_t k,uint64_t v){ (void)k;(void)v; }
uint64_t sym_concrete(uint64_t v){ return v; }
void sym_done(void){ fflush(stdout); _Exit(0); }
extern void (*__init_array_start[])(int,char**,char**);
void *sym_init_fn(void){ return (void*)__init_array_start[0]; }

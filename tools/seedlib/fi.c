#include "fi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
long fi_live, fi_calls, fi_fail_at;
#define N 65536
static void *blk[N];
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
void fi_fail(long n){ fi_calls = 0; fi_fail_at = n; }
static int fails(void){ ++fi_calls; return fi_fail_at != 0 && fi_calls == fi_fail_at; }
static void *reg(void*p){ if (p) { for (int i=0;i<N;++i) if (!blk[i]) { blk[i]=p; ++fi_live; return p; } abort(); } return p; }
void *__wrap_malloc(size_t s){ return fails()?NULL:reg(__real_malloc(s)); }
void *__wrap_calloc(size_t n,size_t s){ return fails()?NULL:reg(__real_calloc(n,s)); }
void __wrap_free(void*p);
void *__wrap_realloc(void*p,size_t s){
    if (fails()) return NULL;
    void *q = __real_malloc(s?s:1); 
    if (p) { memcpy(q,p,s); __wrap_free(p);} 
    return reg(q); }
char *__wrap_strdup(const char*s){ if (fails()) return NULL; char*p=__real_malloc(strlen(s)+1); strcpy(p,s); return reg(p); }
void __wrap_free(void*p){ if(!p) return; for (int i=0;i<N;++i) if (blk[i]==p) { blk[i]=NULL; --fi_live; __real_free(p); return; }
    fprintf(stderr,"released twice or not allocated: %p\n",p); _Exit(77); }

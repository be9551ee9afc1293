// Ring buffer against a bounded byte FIFO (C14)
#include "common.h"
#include <deque>
extern "C" { 
#include <u/toolbox/rb.h>
}
static void scen_rb(){
  baseline(); u64 mark=mem_mark(); u_rb_t*rb=(u_rb_t*)0; size_t cap; int opts; 
  switch(draw(6)){ case 0: case 1: case 2: opts=U_RB_OPT_IMPL_MALLOC; break; case 3: case 4: opts=U_RB_OPT_IMPL_MALLOC|U_RB_OPT_USE_CONTIGUOUS_MEM; break; default: opts=draw(2)?U_RB_OPT_USE_CONTIGUOUS_MEM:U_RB_OPT_NONE; }
  bool mm=!(opts&U_RB_OPT_IMPL_MALLOC), contig=opts&U_RB_OPT_USE_CONTIGUOUS_MEM;
  cap= mm? (draw(4)?1+draw(9000):draw(2)) : draw(6)?1+draw(draw(2)?8:40):1+logu(9); if(draw(200)==199) cap=draw(2)?SIZE_MAX/2+1:SIZE_MAX-draw(5000); bool absurd=cap>(1ull<<40);
  auto tmp_left=[&]{ int n=0; for(auto&f:fs_list()) if(f.compare(0,5,"/tmp/")==0) n++; return n; }; 
  u64 h0=hard_faults(); int rc=LIBCALL(u_rb_create(cap,opts,&rb)); bool err=hard_faults()>h0; trace("op create %zu opts %d =%d",cap,opts,rc);
  if(!fired(F_UNLINK)) CHECKP("C14,C20",tmp_left()==0,"rb-tempfile","u_rb_create left a temporary file behind");
  if(rc){ CHECKP("C14",err||absurd||(cap==0&&!mm),"rb-refused","u_rb_create(%zu) failed although nothing went wrong",cap); 
    std::string d; CHECKP("C14,C20",mapping_count()==0&&fd_count()==0&&live_since(mark)==0,"rb-leftover","a failed u_rb_create left %d mapping(s), %d descriptor(s) and %zu memory block(s) behind",mapping_count(),fd_count(),live_since(mark)); check_balance("failed u_rb_create","C14","C14"); probe("rb-create-failed"); return; }
  CHECKP("C14",!absurd,"rb-absurd","u_rb_create(%zu) succeeded",cap);
  size_t sz=u_rb_size(rb); CHECKP("C14",sz>=cap&&(mm||sz==cap),"rb-size","a ring buffer of (at least) %zu bytes was asked for, its size is %zu",cap,sz);
  u64 wpos=0,rpos=0; u32 salt=draw(250); auto pat=[&](u64 p){ return (char)(p*7+(p>>8)*13+salt); };
  auto counters=[&](const char*op){ size_t r=u_rb_ready(rb),a=u_rb_avail(rb); CHECKP("C14",r==wpos-rpos&&r+a==sz,"rb-counters","after %s ready=%zu avail=%zu but %llu of %zu bytes are in the buffer",op,r,a,(unsigned long long)(wpos-rpos),sz); };
  counters("create"); size_t nops=0;
  auto amount=[&](size_t ref){ switch(draw(8)){ case 0: return (size_t)draw(5); case 1: return ref; case 2: return ref+1; case 3: return ref?ref-1:0; case 4: return sz; case 5: return sz+1+draw(3); case 6: return ref?(size_t)draw(ref+1):0; default: return (size_t)draw(sz+1); } };
  while(nops<60&&more(20)){ Span sp; nops++; size_t ready=wpos-rpos, avail=sz-ready;
    switch(draw(8)){
      case 0: case 1: case 2: { size_t n=amount(avail); char*b=(char*)malloc(n?n:1); for(size_t i=0;i<n;i++) b[i]=pat(wpos+i); ssize_t w=LIBCALL(u_rb_write(rb,b,n)); free(b); trace("op write %zu (room %zu)=%zd",n,avail,w); size_t exp=std::min(n,avail);
        if(n>sz&&w==-1) exp=0; else CHECKP("C14",w==(ssize_t)exp,"rb-write-count","writing %zu bytes with room for %zu accepted %zd",n,avail,w); wpos+=exp; if(exp) probe("rb-written"); break; }
      case 3: case 4: case 5: { size_t n=amount(ready); char*b=(char*)malloc(n?n:1); ssize_t r=LIBCALL(u_rb_read(rb,b,n)); size_t exp=std::min(n,ready); trace("op read %zu (ready %zu)=%zd",n,ready,r); 
        if(n>sz&&r==-1) exp=0; else CHECKP("C14",r==(ssize_t)exp,"rb-read-count","reading %zu bytes with %zu ready gave %zd",n,ready,r); for(size_t i=0;i<exp;i++) CHECKP("C14",b[i]==pat(rpos+i),"rb-data","byte %llu of the stream was read as 0x%02x instead of 0x%02x",(unsigned long long)(rpos+i),(u8)b[i],(u8)pat(rpos+i)); free(b); rpos+=exp; break; }
      case 6: { size_t n=amount(ready), n0=n; char*p=(char*)LIBCALL(u_rb_fast_read(rb,&n)); trace("op fast_read %zu (ready %zu)=%s %zu",n0,ready,p?"data":"NULL",n);
        if(!contig){ if(!p) break; if(!mm) fail("C14","rb-fast","u_rb_fast_read on a non-contiguous buffer gave data"); }
        size_t exp=std::min(n0,ready);
        if(n0>sz){ if(p) CHECKP("C14",n==exp,"rb-read-count","fast-reading %zu bytes with %zu ready gave %zu",n0,ready,n); else { CHECKP("C14",n==n0,"rb-fast-size","a refused u_rb_fast_read touched the size"); break; } }
        else if(exp==0){ CHECKP("C14",p==NULL&&n==0,"rb-fast-empty","u_rb_fast_read with nothing to give returned %s, %zu",p?"data":"NULL",n); break; }
        else CHECKP("C14",p!=NULL&&n==exp,"rb-read-count","fast-reading %zu bytes with %zu ready gave %s %zu",n0,ready,p?"data":"NULL",n);
        for(size_t i=0;i<exp;i++) CHECKP("C14",p[i]==pat(rpos+i),"rb-data","byte %llu of the stream was fast-read as 0x%02x instead of 0x%02x",(unsigned long long)(rpos+i),(u8)p[i],(u8)pat(rpos+i)); rpos+=exp; probe("rb-fast-read"); break; }
      default: if(draw(3)) break; rc=LIBCALL(u_rb_clear(rb)); trace("op clear"); CHECKP("C14",rc==0,"rb-clear","u_rb_clear failed"); rpos=wpos; }
    counters("the operation"); }
  LIBVOID(u_rb_free(rb)); CHECKP("C14,C20",mapping_count()==0,"rb-leftover","a released ring buffer left a mapping behind"); check_balance("ring buffer operations","C14","C14");
}
static Reg r1("ring",{"C14"},scen_rb,2);

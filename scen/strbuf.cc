// Growing strings and buffers against a byte-sequence model (C15)
#include "common.h"
#include <wchar.h>

static std::string text(){ switch(draw(7)){ case 0: return rbytes(1+draw(8),0); case 1: return rbytes(logu(6),0); case 2: return rbytes(logu(9),0); case 3: return rbytes(60+draw(10),0); case 4: return rbytes(120+draw(16),0); case 5: return "  "+rbytes(draw(9),0)+"\t "; default: return rbytes(logu(13),0); } }
static std::string trimmed(std::string s){ size_t a=0; while(a<s.size()&&strchr(" \t\n\v\f\r",s[a])) a++; size_t b=s.size(); while(b>a&&strchr(" \t\n\v\f\r",s[b-1])) b--; return s.substr(a,b-a); }
// what a printf-style call should add, and whether formatting itself fails
struct Fmt { int k; std::string s; int n; std::string out; bool bad; };
static Fmt gen_fmt(){ Fmt f; f.k=draw(8); f.bad=false; f.n=0;
  switch(f.k){ case 0: f.s=text(); f.out=f.s; break; case 1: f.n=(int)draw(1000000)-500000; f.out=std::to_string(f.n); break; case 2: f.s=text(); f.n=draw(300); { std::string p=f.s; if((int)p.size()<f.n) p=std::string(f.n-p.size(),' ')+p; f.out="<"+p+">"; } break; case 3: f.out=""; break; case 4: f.s=text(); f.n=draw(100); f.out=f.s+"="+std::to_string(f.n)+";"; break; case 5: f.n=100+draw(400); f.out=std::string(f.n-1,' ')+"x"; break; case 6: f.s=text(); f.out=f.s+f.s; break; default: f.s=text(); f.bad=true; }
  return f; }
static wchar_t badw[]={0x4e2d,0x6587,0};
template<class F> static int call_fmt(F f,const Fmt&x){ switch(x.k){ case 0: return f("%s",x.s.c_str()); case 1: return f("%d",x.n); case 2: return f("<%*s>",x.n,x.s.c_str()); case 3: return f("%s",""); case 4: return f("%s=%d;",x.s.c_str(),x.n); case 5: return f("%*c",x.n,'x'); case 6: return f("%s%s",x.s.c_str(),x.s.c_str()); default: return f("%s%ls",x.s.c_str(),badw); } }

struct Str { u_string_t*s=nullptr; std::string m; };
static void check_str(Str&v,const char*op){ NoFault nf; if(!v.s) return; const char*c=u_string_c(v.s); size_t n=u_string_len(v.s);
  CHECKP("C15",c!=NULL,"str-null","after %s the string has no text",op);
  CHECKP("C15",n==v.m.size(),"str-length","after %s the string's length is %zu instead of %zu",op,n,v.m.size());
  CHECKP("C15",memcmp(c,v.m.data(),n)==0,"str-content","after %s the string holds %s instead of %s",op,q(std::string(c,n)).c_str(),q(v.m).c_str());
  CHECKP("C15",c[n]==0,"str-termination","after %s the text is not terminated at its length %zu",op,n); }
static void scen_str(){
  baseline(); Str v[2]; size_t nops=0; bool heal=draw(2); 
  auto settle=[&](Str&x,int rc,u64 h0,bool must_fail,const std::string&neu,bool replace,const char*op){
    bool err=hard_faults()>h0; std::string old=x.m;
    if(rc==0){ CHECKP("C15",!must_fail,"str-false-success","%s reported success although it cannot be carried out",op); x.m=neu; check_str(x,op); }
    else { CHECKP("C15",err||must_fail,"str-refused","%s failed although memory was available",op);
      if(replace && u_string_len(x.s)==0 && !old.empty()) x.m=""; check_str(x,op); probe("str-op-failed"); } };
  while(nops<24 && more(8)){ Span sp; nops++; int i=draw(2); Str&x=v[i]; u64 h0=hard_faults(); int rc;
    if(!x.s){ std::string t=text(); int how=draw(3); rc= how==0? LIBCALL(u_string_create(t.data(),t.size(),&x.s)) : how==1? LIBCALL(u_string_create(NULL,0,&x.s)) : LIBCALL(u_string_create("",0,&x.s)); trace("op create(%s)=%d",how==0?q(t).c_str():"",rc);
      if(rc==0){ x.m=how==0?t:""; check_str(x,"u_string_create"); } else { CHECKP("C15",hard_faults()>h0,"str-refused","u_string_create failed although memory was available"); x.s=nullptr; } continue; }
    int op=draw(13); 
    switch(op){
      case 0: case 1: case 2: { std::string t=text(); int n=op==2?1+logu(6):1; bool anyf=false; for(int k=0;k<n;k++){ h0=hard_faults(); rc=LIBCALL(u_string_append(x.s,t.data(),t.size())); if(rc) anyf=true; settle(x,rc,h0,false,x.m+t,false,"u_string_append"); if(x.m.size()>200000) break; } trace("op append %zu x%d fail=%d len %zu",t.size(),n,anyf,x.m.size()); break; }
      case 3: { std::string t=text(); rc=LIBCALL(u_string_set(x.s,t.data(),t.size())); trace("op set %zu =%d",t.size(),rc); settle(x,rc,h0,false,t,true,"u_string_set"); break; }
      case 4: case 5: { Fmt f=gen_fmt(); rc=call_fmt([&](auto...a){ return LIBCALL(u_string_aprintf(x.s,a...)); },f); trace("op aprintf kind %d +%zu =%d",f.k,f.out.size(),rc); settle(x,rc,h0,f.bad,x.m+f.out,false,"u_string_aprintf"); break; }
      case 6: { Fmt f=gen_fmt(); int clr=draw(3); rc= clr==2? call_fmt([&](auto...a){ return LIBCALL(u_string_sprintf(x.s,a...)); },f) : call_fmt([&](auto...a){ return LIBCALL(u_string_do_printf(x.s,clr,a...)); },f); trace("op printf clear=%d kind %d %zu =%d",clr,f.k,f.out.size(),rc); settle(x,rc,h0,f.bad,clr?f.out:x.m+f.out,clr!=0,"u_string_sprintf"); break; }
      case 7: rc=LIBCALL(u_string_clear(x.s)); trace("op clear"); settle(x,rc,h0,false,"",true,"u_string_clear"); break;
      case 8: rc=LIBCALL(u_string_trim(x.s)); trace("op trim"); settle(x,rc,h0,false,trimmed(x.m),false,"u_string_trim"); break;
      case 9: { size_t n=draw(4)?draw(x.m.size()+1):x.m.size()+1+draw(3); rc=LIBCALL(u_string_set_length(x.s,n)); trace("op set_length %zu of %zu =%d",n,x.m.size(),rc); settle(x,rc,h0,n>x.m.size(),n<=x.m.size()?x.m.substr(0,n):x.m,false,"u_string_set_length"); break; }
      case 10: { Str&y=v[1-i]; if(!y.s) break; rc=LIBCALL(u_string_copy(x.s,y.s)); trace("op copy %zu =%d",y.m.size(),rc); settle(x,rc,h0,false,y.m,true,"u_string_copy"); check_str(y,"u_string_copy (source)"); break; }
      case 11: { size_t n=draw(8)==7?hugesz():logu(10); rc=LIBCALL(u_string_reserve(x.s,n)); trace("op reserve %zu =%d",n,rc); settle(x,rc,h0,n>(1u<<30),x.m,false,"u_string_reserve"); break; }
      default: if(draw(2)){ LIBVOID(u_string_free(x.s)); trace("op free"); } else { char*c=LIBCALL(u_string_detach_cstr(x.s)); trace("op detach"); CHECKP("C15",c?x.m==c:x.m.empty(),"str-detach","the detached text is %s instead of %s",c?q(c).c_str():"NULL",q(x.m).c_str()); if(c){ CHECKP("C15",is_live(c),"str-detach","the detached text is not heap memory"); xfree(c); } } x.s=nullptr; x.m="";
    }
  }
  if(heal){ faults_heal(); for(auto&x:v) if(x.s&&x.m.size()<200000){ std::string t=text()+rbytes(300,0); int rc=LIBCALL(u_string_append(x.s,t.data(),t.size())); trace("op final append %zu =%d",t.size(),rc); CHECKP("C15",rc==0,"str-unusable","once memory is available again appending %zu bytes to a %zu-byte string still fails",t.size(),x.m.size()); x.m+=t; check_str(x,"u_string_append"); } }
  for(auto&x:v) if(x.s) u_string_free(x.s); check_balance("string operations");
}
static Reg r1("string",{"C15"},scen_str,1);

static void scen_buf(){
  baseline(); u_buf_t*b=nullptr; std::string m; size_t nops=0; bool heal=draw(2); { u64 h0=hard_faults(); int rc=LIBCALL(u_buf_create(&b)); if(rc){ CHECKP("C15",hard_faults()>h0,"buf-refused","u_buf_create failed although memory was available"); check_balance("u_buf_create"); return; } }
  auto check=[&](const char*op,bool term){ NoFault nf; ssize_t n=u_buf_len(b); char*p=(char*)u_buf_ptr(b); CHECKP("C15",n==(ssize_t)m.size(),"buf-length","after %s the buffer's length is %zd instead of %zu",op,n,m.size()); CHECKP("C15",n==0||(p&&!memcmp(p,m.data(),n)),"buf-content","after %s the buffer holds %s instead of %s",op,p?q(std::string(p,n)).c_str():"NULL",q(m).c_str()); CHECKP("C15",u_buf_size(b)>=n,"buf-size","after %s the buffer's size is below its length",op); if(term&&p&&n>0) CHECKP("C15",p[n]==0,"buf-termination","after %s the data is not zero-terminated",op); };
  auto settle=[&](int rc,u64 h0,bool must_fail,bool may_fail,const std::string&neu,bool replace,const char*op,bool term){ bool err=hard_faults()>h0;
    if(rc==0){ CHECKP("C15",!must_fail,"buf-false-success","%s reported success although it cannot be carried out",op); m=neu; check(op,term); }
    else { CHECKP("C15",err||must_fail||may_fail,"buf-refused","%s failed although memory was available",op); if(replace&&u_buf_len(b)==0) m=""; check(op,false); probe("buf-op-failed"); } };
  while(nops<24 && more(8)){ Span sp; nops++; u64 h0=hard_faults(); int rc; 
    switch(draw(11)){
      case 0: case 1: case 2: { std::string t=draw(3)?text():rbytes(logu(12),1); int n=draw(4)==3?1+logu(5):1; bool f=false; for(int k=0;k<n&&m.size()<300000;k++){ h0=hard_faults(); rc=LIBCALL(u_buf_append(b,t.data(),t.size())); f|=rc!=0; settle(rc,h0,false,t.empty(),m+t,false,"u_buf_append",true); } trace("op append %zu x%d fail=%d len %zu",t.size(),n,f,m.size()); break; }
      case 3: { std::string t=draw(2)?text():rbytes(logu(12),1); rc=LIBCALL(u_buf_set(b,t.data(),t.size())); trace("op set %zu =%d",t.size(),rc); settle(rc,h0,false,t.empty(),t,true,"u_buf_set",true); break; }
      case 4: case 5: case 6: { Fmt f=gen_fmt(); rc=call_fmt([&](auto...a){ return LIBCALL(u_buf_printf(b,a...)); },f); trace("op printf kind %d +%zu =%d",f.k,f.out.size(),rc); settle(rc,h0,f.bad,false,m+f.out,false,"u_buf_printf",true); break; }
      case 7: rc=LIBCALL(u_buf_clear(b)); trace("op clear"); settle(rc,h0,false,false,"",true,"u_buf_clear",false); break;
      case 8: { size_t n=draw(4)?draw(m.size()+1):m.size()+1+draw(3); rc=LIBCALL(u_buf_shrink(b,n)); trace("op shrink %zu of %zu =%d",n,m.size(),rc); settle(rc,h0,n>m.size(),false,n<=m.size()?m.substr(0,n):m,false,"u_buf_shrink",false); break; }
      case 9: { size_t n=draw(8)==7?hugesz():logu(11); rc=LIBCALL(u_buf_reserve(b,n)); trace("op reserve %zu =%d",n,rc); settle(rc,h0,n>(1u<<30),false,m,false,"u_buf_reserve",false); if(rc==0) CHECKP("C15",u_buf_size(b)>=(ssize_t)n,"buf-reserve","u_buf_reserve(%zu) left only %zd bytes of room",n,u_buf_size(b)); break; }
      default: { char*p=(char*)u_buf_ptr(b); rc=LIBCALL(u_buf_detach(b)); trace("op detach"); CHECKP("C15",rc==0,"buf-refused","u_buf_detach failed"); if(p){ CHECKP("C15",is_live(p)&&live_size(p)>=m.size()&&!memcmp(p,m.data(),m.size()),"buf-detach","the detached block does not hold the content"); xfree(p); } m=""; check("u_buf_detach",false); }
    }
  }
  if(heal){ faults_heal(); std::string t=text()+rbytes(300,0); int rc=LIBCALL(u_buf_append(b,t.data(),t.size())); trace("op final append =%d",rc); CHECKP("C15",rc==0,"buf-unusable","once memory is available again appending still fails"); m+=t; check("u_buf_append",true); }
  LIBVOID(u_buf_free(b)); check_balance("buffer operations");
}
static Reg r2("buffer",{"C15"},scen_buf,1);

// Replaceable allocator (C22)
#include "common.h"
static u64 nM,nC,nR,nF; static size_t argM,argC1,argC2,argR;
static void*hm(size_t n){ nM++; argM=n; return hook_malloc(n); } static void*hc(size_t a,size_t b){ nC++; argC1=a; argC2=b; return hook_calloc(a,b); } static void*hr(void*p,size_t n){ nR++; argR=n; return hook_realloc(p,n); } static void hf(void*p){ nF++; hook_free(p); }
static void*dm(size_t n){ return hook_malloc(n); } static void*dc(size_t a,size_t b){ return hook_calloc(a,b); } static void*dr(void*p,size_t n){ return hook_realloc(p,n); } static void df(void*p){ hook_free(p); }
// the wrappers themselves: what is asked for is what the installed function is asked for, each function replaced on its own
static void scen_wrap(){
  baseline(); int inst[4]={0,0,0,0}; hooks_install(true); u_memory_set_malloc(dm); u_memory_set_calloc(dc); u_memory_set_realloc(dr); u_memory_set_free(df);
  struct B { char*p; std::string d; }; std::vector<B> L; nM=nC=nR=nF=0; u64 eM=0,eC=0,eR=0,eF=0; u64 h0;
  auto chk=[&](const char*w){ CHECKP("C22",nM==eM&&nC==eC&&nR==eR&&nF==eF,"wrong-function","%s: the counting replacements were called malloc %llu calloc %llu realloc %llu free %llu times, expected %llu %llu %llu %llu",w,(unsigned long long)nM,(unsigned long long)nC,(unsigned long long)nR,(unsigned long long)nF,(unsigned long long)eM,(unsigned long long)eC,(unsigned long long)eR,(unsigned long long)eF); for(auto&b:L) CHECKP("C22",!memcmp(b.p,b.d.data(),b.d.size())&&live_size(b.p)>=b.d.size(),"content","%s: a block changed its content",w); };
  int n=0; while(n++<60&&more(14)){ Span sp; u32 op=draw(10); size_t sz=logu(9); u64 H=hard_faults();
    switch(op){
      case 0: { trace("u_malloc(%zu)",sz); char*p=(char*)LIBCALL(u_malloc(sz)); if(inst[0]) eM++; if(inst[0]) CHECKP("C22",argM==sz,"size","u_malloc(%zu) asked for %zu",sz,argM); CHECKP("C22",p||hard_faults()>H,"spurious-null","u_malloc(%zu) gave NULL",sz); if(p){ std::string d=rbytes(sz,1); memcpy(p,d.data(),sz); L.push_back({p,d}); } chk("u_malloc"); break; }
      case 1: { bool z=draw(2); size_t c=z?1:1+draw(9); trace("%s(%zu,%zu)",z?"u_zalloc":"u_calloc",c,sz); h0=hook_count(); char*p=(char*)(z?LIBCALL(u_zalloc(sz)):LIBCALL(u_calloc(c,sz))); if(z){ if(inst[0]) eM=nM; if(inst[1]) eC=nC; CHECKP("C22",hook_count()==h0+1,"bypass","u_zalloc did not ask one installed function"); } else if(inst[1]) eC++; if(inst[1]&&!z) CHECKP("C22",argC1*argC2==c*sz,"size","asked for %zu x %zu",argC1,argC2); CHECKP("C22",p||hard_faults()>H,"spurious-null","u_calloc gave NULL"); if(p) { CHECKP("C22",live_size(p)>=c*sz,"size","%zu bytes for %zu x %zu",live_size(p),c,sz); L.push_back({p,std::string(c*sz,0)}); } chk("u_calloc"); break; }
      case 2: case 3: { if(L.empty()) break; size_t i=draw(L.size()); if(!sz) sz=1; trace("u_realloc(#%zu,%zu)",i,sz); char*p=(char*)LIBCALL(u_realloc(L[i].p,sz)); if(inst[2]) eR++; if(inst[2]) CHECKP("C22",argR==sz,"size","u_realloc(%zu) asked for %zu",sz,argR); CHECKP("C22",p||hard_faults()>H,"spurious-null","u_realloc gave NULL"); if(p){ L[i].p=p; std::string d=rbytes(sz,1); size_t keep=std::min(sz,L[i].d.size()); CHECKP("C22",!memcmp(p,L[i].d.data(),keep),"content","u_realloc did not keep the content"); memcpy(p,d.data(),sz); L[i].d=d; } chk("u_realloc"); break; }
      case 4: { trace("u_realloc(NULL,%zu)",sz+1); char*p=(char*)LIBCALL(u_realloc(0,sz+1)); if(inst[2]) eR++; if(p) L.push_back({p,std::string()}); chk("u_realloc"); break; }
      case 5: case 6: { if(L.empty()){ trace("u_free(NULL)"); LIBVOID(u_free(0)); chk("u_free"); break; } size_t i=draw(L.size()); trace("u_free(#%zu)",i); char*p=L[i].p; L.erase(L.begin()+i); LIBVOID(u_free(p)); if(inst[3]) eF++; CHECKP("C22",!is_live(p),"not-freed","u_free did not reach the free function"); chk("u_free"); break; }
      case 7: { std::string s=rbytes(sz,0); u32 k=draw(3); size_t m= k==1? draw(sz+4):sz; trace("%s of %zu",k==0?"u_strdup":k==1?"u_strndup":"u_memdup",sz); std::string src=s; h0=hook_count(); char*p=(char*)(k==0?LIBCALL((void*)u_strdup(src.c_str())):k==1?LIBCALL((void*)u_strndup(src.c_str(),m)):LIBCALL(u_memdup(src.data(),sz)));
          if(inst[0]){ eM=nM; } if(inst[1]) eC=nC; CHECKP("C22",p||hard_faults()>H||m>sz,"spurious-null","duplicate of %zu bytes gave NULL",sz); CHECKP("C22",hook_count()>h0||m>sz,"bypass","no installed function was called for a duplicate"); 
          if(p){ std::string w= k==1? src.substr(0,m)+std::string(1,0): k==0? src+std::string(1,0) : src; CHECKP("C22",live_size(p)>=w.size()&&!memcmp(p,w.data(),w.size()),"duplicate","the duplicate of %s (%zu) is wrong",q(src).c_str(),m); L.push_back({p,w}); } chk("dup"); break; }
      default: { u32 k=draw(4); inst[k]^=1; trace("%s %s",inst[k]?"count":"plain",k==0?"malloc":k==1?"calloc":k==2?"realloc":"free"); switch(k){ case 0: LIBVOID(u_memory_set_malloc(inst[0]?hm:dm)); break; case 1: LIBVOID(u_memory_set_calloc(inst[1]?hc:dc)); break; case 2: LIBVOID(u_memory_set_realloc(inst[2]?hr:dr)); break; default: LIBVOID(u_memory_set_free(inst[3]?hf:df)); } chk("install"); }
    } }
  for(auto&b:L) LIBVOID(u_free(b.p)); check_balance("custom allocator");
}
// everything else the library does, with replacements installed
static void scen_custom(){
  hooks_install(true); u_memory_set_malloc(hook_malloc); u_memory_set_calloc(hook_calloc); u_memory_set_realloc(hook_realloc); u_memory_set_free(hook_free);
  std::vector<const Scenario*> v; for(auto&s:scenarios()) if(s.fn!=nullptr&&s.weight>0&&strncmp(s.name,"custom-",7)) v.push_back(&s);
  std::stable_sort(v.begin(),v.end(),[](const Scenario*a,const Scenario*b){ return strcmp(a->name,b->name)<0; });
  const Scenario*s=v[draw(v.size())]; trace("with a replaced allocator: %s",s->name); u64 h=hook_count(); s->fn();
  if(hook_count()>h) probe("scenario used the replaced allocator");
}
static Reg r1("custom-wrappers",{"C22"},scen_wrap,1);
static Reg r2("custom-allocator",{"C22"},scen_custom,3);

// Choices, faults, tracing, verdicts, memory.
#include "internal.h"
#include <cstdarg>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <execinfo.h>
#include <unordered_map>
#include <unordered_set>
#include <malloc.h>
extern "C" { void __asan_set_error_report_callback(void(*)(const char*)); const char *__asan_get_report_description(void); int __asan_report_present(void);
 void __sanitizer_set_death_callback(void(*)(void)); 
 const char *__asan_default_options(void) { return "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:handle_segv=1:detect_stack_use_after_return=0:exitcode=99:symbolize=1:abort_on_error=0:print_legend=0:print_summary=1:quarantine_size_mb=8:malloc_context_size=12:fast_unwind_on_malloc=1:detect_odr_violation=0:allow_user_segv_handler=0:use_sigaltstack=1:log_path=/dev/null:redzone=32:max_redzone=64"; } }
namespace sim {
Shm *S; u8 *cov; const char *active_prop=""; bool in_lib=false; bool pure_child=false;
u64 block_budget=30000000, step_budget=200000; u64 clock_us; 
std::function<void(const char*)> on_syscall;
static std::vector<Scenario> *g_sc;
std::vector<Scenario> &scenarios(){ if(!g_sc) g_sc=new std::vector<Scenario>; return *g_sc; }

const char *kind_name[F_NKINDS]={"malloc-fail","open-fail","read-error","read-short","read-eintr","read-eagain","write-error","disk-full","write-short","write-eintr","close-error","stat-fail","fstat-fail","link-fail","unlink-fail","rename-fail","dup-fail","fdopen-fail","mmap-fail","mkstemp-fail","ftruncate-fail","sysconf-fail","socket-fail","bind-fail","listen-fail","setsockopt-fail","getsockopt-fail","fcntl-fail","connect-eintr","connect-fail","select-eintr","select-fail","accept-eintr","accept-fail","resolver-fail","fork-fail","wait-eintr","wait-echild","sleep-eintr","clock-fail","popen-fail","pclose-fail","setenv-fail","sigaction-fail","uname-fail","errno-clobber","format-fail","callback-fail","crash-point"};

// ---- trace
static void hash_bytes(const char*p,size_t n){ u64 h=S->hash; for(size_t i=0;i<n;i++){ h^=(u8)p[i]; h*=1099511628211ull; } S->hash=h; }
void trace(const char*fmt,...){
  char b[600]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(n<0) return; if(n>(int)sizeof b-1)n=sizeof b-1;
  hash_bytes(b,n);
  if(S->tracing && S->tracelen+n+2<TRACEMAX){ memcpy(S->trace+S->tracelen,b,n); S->tracelen+=n; S->trace[S->tracelen++]='\n'; S->trace[S->tracelen]=0; }
}
std::string q(const std::string&s,size_t max){ std::string o="\""; size_t i=0; for(;i<s.size()&&i<max;i++){ u8 c=s[i]; char b[8]; if(c=='\n')o+="\\n"; else if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){snprintf(b,8,"\\x%02x",c);o+=b;} else o+=c; } o+="\""; if(i<s.size()){ char b[32]; snprintf(b,32,"..(%zu)",s.size()); o+=b;} return o; }

// ---- verdict
void finish(u32 st){ S->status=st; S->simtime=clock_us; fflush(nullptr); _exit(0); }
void large_run(){ block_budget*=20; step_budget*=20; probe("large-input"); }
bool active(const char*p){ size_t n=strlen(active_prop); for(const char*c=p;;c++){ if(!strncmp(c,active_prop,n)&&(!c[n]||c[n]==',')) return true; c=strchr(c,','); if(!c) return false; } } // "C14,C20": a rule both properties contain
static void vfail(const char*props,const char*rule,const char*fmt,va_list ap){
  char prop[8]; if(active(props)) snprintf(prop,8,"%s",active_prop); else { snprintf(prop,8,"%s",props); prop[strcspn(prop,",")]=0; }
  char b[4096]; vsnprintf(b,sizeof b,fmt,ap);
  trace("!! %s %s: %s",prop,rule,b);
  if(active(prop)){ snprintf(S->prop,8,"%s",prop); snprintf(S->rule,96,"%s",rule); snprintf(S->msg,4096,"%s",b); S->simtime=clock_us; S->status=ST_VIOLATION; _exit(0); }
  snprintf(S->other_prop,8,"%s",prop); snprintf(S->other_rule,96,"%s",rule); snprintf(S->msg,4096,"%s",b);
}
void fail(const char*prop,const char*rule,const char*fmt,...){ va_list ap; va_start(ap,fmt); in_lib=false; vfail(prop,rule,fmt,ap); va_end(ap); S->simtime=clock_us; S->status=ST_OTHER; _exit(0); }
void soft_fail(const char*prop,const char*rule,const char*fmt,...){ if(!active(prop)) return; va_list ap; va_start(ap,fmt); in_lib=false; vfail(prop,rule,fmt,ap); va_end(ap); }
void end_run(){ S->simtime=clock_us; S->status=ST_ENDED; _exit(0); }
void probe(const char*name){ for(int i=0;i<64;i++){ if(!S->probes[i][0]) snprintf(S->probes[i],48,"%s",name); if(!strcmp(S->probes[i],name)){ S->probe_n[i]++; return; } } }

// crash / sanitizer verdicts: class is the kind of error; a property's own check reports it, C20 only the release-related ones
static void crash_verdict(const char*desc,const char*rep){
  if(S->status!=ST_RUNNING) return;
  bool rel=strstr(desc,"use-after-free")||strstr(desc,"double-free")||strstr(desc,"bad-free")||strstr(desc,"attempting free")||strstr(desc,"alloc-dealloc");
  snprintf(S->rule,96,"crash:%s",desc); snprintf(S->msg,4096,"library code misbehaved: %s",desc);
  snprintf(S->report,sizeof S->report,"%s",rep?rep:""); S->simtime=clock_us;
  if(active("C20") && !rel){ snprintf(S->other_prop,8,"-"); snprintf(S->other_rule,96,"%s",S->rule); S->status=ST_OTHER; return; }
  snprintf(S->prop,8,"%s",active_prop); S->status=ST_VIOLATION;
}
static void asan_cb(const char*rep){ const char*d=__asan_get_report_description(); char db[64]; snprintf(db,64,"%s",d?d:"unknown"); 
  if(strstr(rep,"attempting double-free")) snprintf(db,64,"double-free"); else if(strstr(rep,"attempting free on address which was not")) snprintf(db,64,"bad-free");
  else if(strstr(rep,"stack-overflow")) snprintf(db,64,"stack-overflow"); else if(strstr(rep,"SEGV")) snprintf(db,64,"SEGV"); else if(strstr(rep,"heap-use-after-free")) snprintf(db,64,"heap-use-after-free");
  crash_verdict(db,rep); }

// ---- choices
static u64 splitmix(u64&x){ u64 z=(x+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
u32 draw(u32 n){
  if(n<=1) return 0;
  u32 v;
  if(S->replaying){ u32 i=S->pos; v = i<S->replay_n ? S->replay[i]%n : 0; }
  else v=(u32)(((unsigned __int128)splitmix(S->rng)*n)>>64);
  S->pos++;
  if(S->nchoices<MAXC) S->choices[S->nchoices++]=v; else { S->status=ST_OVERFLOW; _exit(0); }
  return v;
}
bool chance(u32 num,u32 den){ return draw(den)>=den-num; }
i64 range(i64 lo,i64 hi){ if(hi<=lo) return lo; return lo+draw((u32)(hi-lo+1)); }
u32 logu(u32 maxbits){ u32 b=draw(maxbits+1); if(!b) return 0; return (1u<<(b-1))+draw(1u<<(b-1)); }
static u32 span_stack[256]; static int span_sp;
Span::Span(){ if(S->nspans<8192 && span_sp<256){ S->span_b[S->nspans]=S->nchoices; S->span_e[S->nspans]=S->nchoices; span_stack[span_sp]=S->nspans; S->nspans++; } if(span_sp<256) span_sp++; }
Span::~Span(){ if(span_sp>0){ span_sp--; S->span_e[span_stack[span_sp]]=S->nchoices; } }
bool more(u32 avg){ return draw(avg+1)!=0; }
std::string rbytes(size_t n,int style){ std::string s; s.resize(n); if(!n) return s; u32 k=draw(1u<<16); u64 x=k*2654435761u+1; for(size_t i=0;i<n;i++){ if(k==0) s[i]='a'+(i%26); else { u64 r=splitmix(x); s[i]= style==0? "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[r%63] : (char)r; } } return s; }

// ---- faults
struct KCfg { int mode=-1; u32 n=0; u64 seen=0; u32 den=0; std::unordered_set<u64> ctxs; };
static KCfg kc[F_NKINDS]; static int run_faults=-1; static bool healed=false; static bool allowed[F_NKINDS]; static u32 focus_kind=~0u;
u8 junk=0xA5; // what memory nobody has written yet holds: the heap, and the stack below the caller of the library
__attribute__((noinline)) void stack_junk(){ char b[16384]; void*d=b; size_t n=sizeof b; asm volatile("rep stosb":"+D"(d),"+c"(n):"a"(junk):"memory"); }
Lib::Lib(){ prev=in_lib; in_lib=true; if(!prev) stack_junk(); } Lib::~Lib(){ in_lib=prev; }
NoFault::NoFault(){ prev=in_lib; in_lib=false; } NoFault::~NoFault(){ in_lib=prev; }
bool transparent(Kind k){ switch(k){ case F_READ_SHORT: case F_READ_EINTR: case F_WRITE_SHORT: case F_WRITE_EINTR: case F_CONNECT_EINTR: case F_SELECT_EINTR: case F_ACCEPT_EINTR: case F_SLEEP_EINTR: case F_WAIT_EINTR: case F_ERRNO_CLOBBER: case F_CRASH_POINT: return true; default: return false; } }
u64 hard_faults(){ return S->hard; }
u64 fired(Kind k){ return S->fired[k]; }
void count_fault(Kind k){ S->fired[k]++; if(!transparent(k)) S->hard++; S->anyfault++; }
void faults_allow(std::initializer_list<Kind> ks){ for(int i=0;i<F_NKINDS;i++) allowed[i]=false; for(Kind k:ks) allowed[k]=true; }
void faults_heal(){ healed=true; }
bool faults_enabled_this_run(){ if(run_faults<0) run_faults=draw(3)?1:0; return run_faults==1; }
// Where in the library a call comes from: its chain of callers (everything is built with frame pointers).  A fault on the n-th *new* place
// (mode 4) gives places that are reached once in a run the same chance as those reached over and over.
static u64 context(){ u64 h=0; void**fp=(void**)__builtin_frame_address(0); char*lo=(char*)fp; for(int i=0;i<12;i++){ void**nx=(void**)fp[0]; h=(h^(u64)fp[1])*0x9E3779B97F4A7C15ull; h^=h>>29; if((char*)nx<=(char*)fp||(char*)nx>lo+(1<<16)||((u64)nx&7)) break; fp=nx; } return h; }
bool fault(Kind k){
  if(!in_lib||healed||!allowed[k]) return false;
  S->opp[k]++;
  if(!faults_enabled_this_run()) return false;
  KCfg&c=kc[k];
  if(c.mode<0){ // how does this kind behave in this run?
    static const int modes[]={0,0,4,1,1,4,2,3}, mmodes[]={0,4,4,1,1,4,2,3};
    c.mode=(k==F_MALLOC?mmodes:modes)[draw(8)];
    if(c.mode==1||c.mode==3){ c.n=1+logu(k==F_MALLOC?7:5); }
    if(c.mode==2){ static const u32 dens[]={64,16,8,3}; c.den=dens[draw(4)]; }
  }
  c.seen++; bool f=false;
  if(c.mode==4){ if(!c.n) c.n=1+draw(draw(2)?48:12); if(c.ctxs.insert(context()).second) f=c.ctxs.size()==c.n; }
  switch(c.mode){ case 1: f=c.seen==c.n; break; case 2: f=chance(1,c.den); break; case 3: f=c.seen>=c.n && (transparent(k)? c.seen<c.n+40 : true); break; }
  if(f){ count_fault(k); trace("  ~fault %s",kind_name[k]); }
  return f;
}

// ---- steps
void step(const char*what){ S->steps++; clock_us+=1; if(S->steps>step_budget){ in_lib=false; 
    snprintf(S->rule,96,"no-termination:syscalls"); snprintf(S->msg,4096,"no end after %llu system calls (last: %s)",(unsigned long long)S->steps,what);
    if(active("C20")){ S->status=ST_OTHER; _exit(0);} snprintf(S->prop,8,"%s",active_prop); S->simtime=clock_us; S->status=ST_VIOLATION; _exit(0);} }
void sys_done(const char*what){ if(on_syscall && !pure_child){ NoFault nf; on_syscall(what); } }

// ---- memory
struct Blk { size_t n; void*site; u64 seq; bool hook; };
static bool hooks_on, in_hook;   // application-installed allocator, and inside one of its functions
static std::unordered_map<const void*,Blk> *live; static u64 mseq;
size_t live_blocks(){ return live->size(); }
u64 mem_mark(){ return mseq; }
size_t live_since(u64 m){ size_t c=0; for(auto&e:*live) if(e.second.seq>=m) c++; return c; }
bool is_live(const void*p){ return live->count(p)!=0; }
size_t live_size(const void*p){ auto i=live->find(p); return i==live->end()?0:i->second.n; }
static void reg(void*p,size_t n,void*site){ (*live)[p]=Blk{n,site,mseq++,in_hook}; }
size_t leaked_desc(std::string&out,u64 m){ std::map<u64,std::pair<void*,size_t>> o; for(auto&e:*live) if(e.second.seq>=m) o[e.second.seq]={e.second.site,e.second.n}; int k=0; for(auto&e:o){ char b[80]; snprintf(b,80,"%zu byte(s) allocated at pc=%p; ",e.second.second,e.second.first); out+=b; if(++k>=4) break; } return o.size(); }
static void *do_alloc(size_t n,void*site,bool zero){
  step("malloc");
  if(n>(64u<<20)){ count_fault(F_MALLOC); errno=ENOMEM; return nullptr; }
  if(fault(F_MALLOC)){ errno=ENOMEM; return nullptr; }
  u8*p=(u8*)malloc(n?n:1); if(!p){ errno=ENOMEM; return nullptr; }
  if(zero) memset(p,0,n); else memset(p,junk,n);
  reg(p,n,site); return p;
}
static void do_free(void*p){ if(!p) return; auto i=live->find(p); if(i!=live->end()){ memset(p,0xDD,i->second.n); live->erase(i);} free(p); }
void *raw_alloc(size_t n){ NoFault nf; return do_alloc(n,__builtin_return_address(0),false); }
void xfree(void*p){ do_free(p); }
// application-installed allocator (u_memory_set_*): library code must then reach the C library's only through it
static u64 hook_calls;
struct Hook { bool p; Hook(){ p=in_hook; in_hook=true; hook_calls++; } ~Hook(){ in_hook=p; } };
void hooks_install(bool on){ hooks_on=on; } u64 hook_count(){ return hook_calls; }
static void direct(const char*what){ if(hooks_on&&in_lib&&!in_hook) fail("C22","bypass","the library called %s() of the C library although the application installed its own allocator",what); }
extern "C" {
#define SITE __builtin_return_address(0)
void *sim_malloc(size_t n){ direct("malloc"); return do_alloc(n,SITE,false); }
void *sim_calloc(size_t a,size_t b){ direct("calloc"); size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr; } return do_alloc(n,SITE,true); }
void sim_free(void*p){ if(p){ auto i=live->find(p); if(i!=live->end()&&i->second.hook) direct("free"); } /* blocks the C library handed out itself (getline) go back to it */ int e=errno; do_free(p); errno=e; }
void *sim_realloc(void*o,size_t n){
  direct("realloc");
  if(!o) return do_alloc(n,SITE,false);
  if(!n){ do_free(o); return nullptr; }
  void*p=do_alloc(n,SITE,false); if(!p) return nullptr;
  auto i=live->find(o); size_t on = i!=live->end()? i->second.n : malloc_usable_size(o);
  memcpy(p,o,on<n?on:n); do_free(o); return p;
}
// the C library growing a block of its own (getline)
void *libc_realloc(void*o,size_t n){ bool h=in_hook; in_hook=true; void*p=sim_realloc(o,n); in_hook=h; if(p){ auto i=live->find(p); if(i!=live->end()) i->second.hook=false; } return p; }
void *sim_reallocarray(void*o,size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)){ errno=ENOMEM; return nullptr; } return sim_realloc(o,n); }
int sim_posix_memalign(void**pp,size_t al,size_t n){ direct("posix_memalign"); (void)al; void*p=do_alloc(n,SITE,false); if(!p) return ENOMEM; *pp=p; return 0; }
void *sim_aligned_alloc(size_t al,size_t n){ direct("aligned_alloc"); (void)al; return do_alloc(n,SITE,false); }
char *sim_strdup(const char*s){ direct("strdup"); size_t n=strlen(s)+1; char*p=(char*)do_alloc(n,SITE,false); if(p) memcpy(p,s,n); return p; }
char *sim_strndup(const char*s,size_t m){ direct("strndup"); size_t n=strnlen(s,m); char*p=(char*)do_alloc(n+1,SITE,false); if(p){ memcpy(p,s,n); p[n]=0; } return p; }
int sim_vasprintf(char**o,const char*f,va_list ap){ direct("vasprintf"); va_list a2; va_copy(a2,ap); int n=vsnprintf(nullptr,0,f,a2); va_end(a2); if(n<0) return -1; char*p=(char*)do_alloc(n+1,SITE,false); if(!p) return -1; vsnprintf(p,n+1,f,ap); *o=p; return n; }
int sim_asprintf(char**o,const char*f,...){ va_list ap; va_start(ap,f); int r=sim_vasprintf(o,f,ap); va_end(ap); return r; }
int sim_vsnprintf(char*b,size_t n,const char*f,va_list ap){ if(fault(F_VSNPRINTF)){ errno=ENOMEM; return -1; } return vsnprintf(b,n,f,ap); }
// basic-block counter (gcc -fsanitize-coverage=trace-pc in libu objects only)
void __sanitizer_cov_trace_pc(void){
  u64 pc=(u64)__builtin_return_address(0); if(!S) return; cov[(pc*0x9E3779B97F4A7C15ull)>>(64-18)]=1;
  if(++S->blocks>block_budget && S->status==ST_RUNNING){ in_lib=false; snprintf(S->rule,96,"no-termination:loop"); snprintf(S->msg,4096,"no end after %llu basic blocks (pc=%p)",(unsigned long long)S->blocks,(void*)pc);
    S->simtime=clock_us; if(active("C20")) S->status=ST_OTHER; else { snprintf(S->prop,8,"%s",active_prop); S->status=ST_VIOLATION; } _exit(0); }
}
}
void *hook_malloc(size_t n){ Hook h; return sim_malloc(n); }
void *hook_calloc(size_t a,size_t b){ Hook h; return sim_calloc(a,b); }
void *hook_realloc(void*o,size_t n){ Hook h; return sim_realloc(o,n); }
void hook_free(void*p){ CHECKP("C22",p,"free-null","the installed free function was called with NULL"); Hook h; if(!is_live(p)) fail("C22","foreign-free","the installed free function was given %p, which the installed allocator never returned",p); { auto i=live->find(p); CHECKP("C22",!hooks_on||i->second.hook,"foreign-free","the installed free function was given %p, which the C library allocated",p); } sim_free(p); }
void core_begin_run(Shm*s){
  S=s; S->status=ST_RUNNING; S->hash=1469598103934665603ull; clock_us=1000000000ull*1000000ull; 
  live=new std::unordered_map<const void*,Blk>; 
  for(auto&a:allowed) a=true; 
  __asan_set_error_report_callback(asan_cb);
}
}

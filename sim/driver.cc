// Driver: seeds -> runs in forked children, minimisation, gate, replay files, evidence.
#include "internal.h"
#include <cstdlib>
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <time.h>
#include <algorithm>
#include <unordered_set>
#include <fstream>
#include <sstream>
extern "C" int facility; 
using namespace sim;
static double wall(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }
static u64 mix(u64 x){ x^=x>>33; x*=0xff51afd7ed558ccdull; x^=x>>33; x*=0xc4ceb9fe1a85ec53ull; x^=x>>33; return x; }
static std::vector<const Scenario*> sel; static std::string only;
static void select_scen(){ sel.clear(); for(auto&s:scenarios()){ bool ok=!strcmp(active_prop,"C20")&&s.weight>0; for(auto p:s.props) if(!strcmp(p,active_prop)) ok=true; if(!only.empty()) ok=ok&&only==s.name; if(ok) for(int i=0;i<(s.weight<0?-s.weight:200*s.weight);i++) sel.push_back(&s); } std::stable_sort(sel.begin(),sel.end(),[](const Scenario*a,const Scenario*b){ return strcmp(a->name,b->name)<0; }); }
static void clear_run(Shm*s){ memset(s,0,offsetof(Shm,probes)); memset(s->probe_n,0,sizeof s->probe_n); memset(s->probes,0,sizeof s->probes); s->trace[0]=0; }
// One run in a forked child.  mode: generate from seed (replay empty) or replay.
static void run_once(Shm*s,u64 seed,const std::vector<u32>*rep,bool tracing){
  clear_run(s); s->rng=seed; s->tracing=tracing; if(rep){ s->replaying=1; s->replay_n=std::min<size_t>(rep->size(),MAXC); memcpy(s->replay,rep->data(),s->replay_n*4); }
  pid_t p=fork(); if(p<0){ perror("fork"); exit(3); }
  if(p==0){
    struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); rl.rlim_cur=20; rl.rlim_max=25; setrlimit(RLIMIT_CPU,&rl);
    if(!getenv("SIM_STDERR")){ int fd=open("/dev/null",O_RDWR); dup2(fd,2); dup2(fd,1); dup2(fd,0); }
    core_begin_run(s); kernel_reset();
    const Scenario*sc=sel[draw(sel.size())]; snprintf(s->scen,40,"%s",sc->name); trace("scenario %s",sc->name); { static const u8 J[]={0xA5,0xA5,0xA5,0xA5,0,0xFF,1,0x7F}; junk=J[draw(8)]; }
    sc->fn(); s->simtime=clock_us; s->status=ST_PASS; _exit(0);
  }
  int st; while(waitpid(p,&st,0)<0){}
  if(s->status==ST_RUNNING){ // died without a verdict: signal, cpu limit, or sanitizer exit
    int sig=WIFSIGNALED(st)?WTERMSIG(st):0; snprintf(s->rule,96,"crash:%s%d",sig?"signal-":"exit-",sig?sig:WEXITSTATUS(st)); snprintf(s->msg,4096,"the process died (%s %d) inside library code",sig?"signal":"exit",sig?sig:WEXITSTATUS(st));
    if(!strcmp(active_prop,"C20")) s->status=ST_OTHER; else { snprintf(s->prop,8,"%s",active_prop); s->status=ST_VIOLATION; }
  }
}
static std::string vclass(Shm*s){ std::string r=std::string(s->prop)+"/"+s->rule; return r; }
static std::vector<u32> rec(Shm*s){ std::vector<u32> v(s->choices,s->choices+s->nchoices); while(!v.empty()&&v.back()==0) v.pop_back(); return v; }

struct Result { Shm*s; };
static int attempts;
static bool try_vec(Shm*s,const std::vector<u32>&c,const std::string&cls,std::vector<u32>&best){ attempts++; run_once(s,0,&c,false); if(s->status==ST_VIOLATION&&vclass(s)==cls){ std::vector<u32> r=rec(s); if(r.size()>c.size()) { /*keep canonical*/ } best=r; return true; } return false; }
static bool smaller(const std::vector<u32>&a,const std::vector<u32>&b){ if(a.size()!=b.size()) return a.size()<b.size(); return a<b; }
static std::vector<u32> minimise(Shm*s,std::vector<u32> cur,const std::string&cls,double limit){
  double t0=wall(); std::vector<u32> out; 
  auto attempt=[&](const std::vector<u32>&c){ if(wall()-t0>limit||attempts>6000) return false; if(!smaller(c,cur)) return false; std::vector<u32> r; if(try_vec(s,c,cls,r)&&smaller(r,cur)){ cur=r; return true; } return false; };
  bool improved=true; int rounds=0;
  // make sure spans are known for the current vector
  while(improved&&rounds++<8&&wall()-t0<limit){
    improved=false;
    { // spans: delete whole operations
      run_once(s,0,&cur,false); std::vector<std::pair<u32,u32>> sp; for(u32 i=0;i<s->nspans;i++) if(s->span_e[i]>s->span_b[i]) sp.push_back({s->span_b[i],s->span_e[i]}); 
      std::sort(sp.begin(),sp.end(),[](auto&a,auto&b){ return a.second-a.first>b.second-b.first; });
      for(auto&p:sp){ if(p.second>cur.size()) { if(p.first>=cur.size()) continue; } std::vector<u32> c(cur.begin(),cur.begin()+std::min<size_t>(p.first,cur.size())); if(p.second<cur.size()) c.insert(c.end(),cur.begin()+p.second,cur.end()); if(attempt(c)){ improved=true; break; } }
      if(improved){ rounds--; if(attempts>6000) break; continue; }
    }
    for(size_t k=64;k>=1;k/=2){ for(size_t i=cur.size();i-- >0;){ if(i>=cur.size()) continue; size_t b=i+1>=k?i+1-k:0; std::vector<u32> c(cur.begin(),cur.begin()+b); c.insert(c.end(),cur.begin()+i+1,cur.end()); if(attempt(c)){ improved=true; i=std::min(i,cur.size()); } if(wall()-t0>limit) break; } }
    for(size_t k=32;k>=1;k/=2) for(size_t i=0;i<cur.size();i+=k){ std::vector<u32> c=cur; bool nz=false; for(size_t j=i;j<std::min(i+k,c.size());j++){ if(c[j]) nz=true; c[j]=0; } if(nz&&attempt(c)) improved=true; }
    for(size_t i=0;i<cur.size();i++){ u32 v=cur[i]; if(!v) continue; u32 lo=0; // binary search downwards
      while(lo+1<v && wall()-t0<limit){ u32 mid=lo+(v-lo)/2; std::vector<u32> c=cur; if(i>=c.size()) break; c[i]=mid; if(attempt(c)){ improved=true; if(i>=cur.size()) break; v=cur[i]; } else lo=mid; } 
      if(i<cur.size()&&cur[i]>0){ std::vector<u32> c=cur; c[i]--; if(attempt(c)) improved=true; } }
  }
  return cur;
}
static std::string symbolise(const std::string&in,const char*self){ // pc=0x.... -> function (file:line)
  std::string o; size_t i=0; while(i<in.size()){ size_t k=in.find("pc=0x",i); if(k==std::string::npos){ o+=in.substr(i); break; } o+=in.substr(i,k-i); size_t e=k+5; while(e<in.size()&&isxdigit(in[e])) e++; std::string a=in.substr(k+3,e-k-3); u64 pc=strtoull(a.c_str(),0,16)-1; char cmd[400]; snprintf(cmd,400,"addr2line -f -s -e '%s' 0x%llx 2>/dev/null",self,(unsigned long long)pc); FILE*f=popen(cmd,"r"); char b1[200]="?",b2[200]="?"; if(f){ if(fgets(b1,200,f)) b1[strcspn(b1,"\n")]=0; if(fgets(b2,200,f)) b2[strcspn(b2,"\n")]=0; pclose(f);} o+=std::string(b1)+" ("+b2+")"; i=e; } return o; }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ char b[8]; if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static void write_replay(const std::string&path,const std::string&prop,u64 seed,u64 idx,const std::vector<u32>&c,Shm*s,const char*self){
  std::ofstream f(path); f<<"sim-replay 1\n"; if(!only.empty()) f<<"only "<<only<<"\n"; f<<"property "<<prop<<"\nclass "<<vclass(s)<<"\nhash "<<std::hex<<s->hash<<std::dec<<"\norigin seed="<<seed<<" run="<<idx<<"\nscenario "<<s->scen<<"\nchoices "<<c.size(); for(u32 v:c) f<<" "<<v; f<<"\n# violation: "; std::string m=symbolise(s->msg,self); for(char&ch:m) if(ch=='\n') ch=' '; f<<m<<"\n# trace of operations, system calls and injected faults (minimised):\n"; std::istringstream t(s->trace); std::string l; while(std::getline(t,l)) f<<"#   "<<l<<"\n"; if(s->report[0]){ f<<"# sanitizer report:\n"; std::istringstream r(s->report); while(std::getline(r,l)) f<<"#   "<<l<<"\n"; }
}
struct Known { std::string prop,rule,match,text; };
static std::vector<Known> knowns;
static void load_known(const char*p){ std::ifstream f(p); std::string l; while(std::getline(f,l)){ if(l.compare(0,8,"finding|")==0){ std::vector<std::string> x; std::istringstream s(l); std::string t; while(std::getline(s,t,'|')) x.push_back(t); if(x.size()>=5) knowns.push_back({x[1],x[2],x[3],x[4]}); } } }
static const Known* is_known(Shm*s){ for(auto&k:knowns) if(k.prop==s->prop&&k.rule==s->rule&&(k.match.empty()||strstr(s->msg,k.match.c_str()))) return &k; return nullptr; }

struct WStat { u64 runs,viol,other,ended,overflow,pass,simus,steps,blocks,faulty,choices,distinct; u64 fired[F_NKINDS],opp[F_NKINDS],fruns[F_NKINDS]; char probes[64][48]; u64 probe_n[64]; u64 first_viol; u32 done; u64 ob[8]; char oprop[32][100]; u64 on[32]; char samples[3][1500]; u64 sidx[3]; u64 known_hits[32]; char scn[64][40]; u64 scn_n[64]; };
static const u32 HSET=1u<<22;
int main(int argc,char**argv){
  if(!getenv("SIM_NOASLR")){ personality(ADDR_NO_RANDOMIZE); setenv("SIM_NOASLR","1",1); setenv("TZ","UTC",1); setenv("LC_ALL","C",1); unsetenv("ASAN_OPTIONS"); execv("/proc/self/exe",argv); }
  char self[4096]; ssize_t sl=readlink("/proc/self/exe",self,4095); self[sl>0?sl:0]=0;
  std::string prop,replay,evid,tier="quick",rdir="replays",known; u64 seed=1,runs=20000; int jobs=8; double budget=30; bool twice=false,dump=false; u64 one=~0ull;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--prop") prop=nx(); else if(a=="--seed") seed=strtoull(nx().c_str(),0,10); else if(a=="--runs") runs=strtoull(nx().c_str(),0,10); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--budget") budget=atof(nx().c_str()); else if(a=="--replay") replay=nx(); else if(a=="--evidence") evid=nx(); else if(a=="--tier") tier=nx(); else if(a=="--replay-dir") rdir=nx(); else if(a=="--known") known=nx(); else if(a=="--scenario") only=nx(); else if(a=="--twice") twice=true; else if(a=="--dump") dump=true; else if(a=="--one") one=strtoull(nx().c_str(),0,10);
    else { fprintf(stderr,"unknown argument %s\n",a.c_str()); return 3; } }
  Shm*s=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  cov=(u8*)mmap(0,COVN,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  signal(SIGPIPE,SIG_IGN);
  if(!replay.empty()){
    std::ifstream f(replay); std::string l; std::vector<u32> c; std::string cls,hash; while(std::getline(f,l)){ std::istringstream x(l); std::string k; x>>k; if(k=="property") x>>prop; else if(k=="only") x>>only; else if(k=="class") x>>cls; else if(k=="hash") x>>hash; else if(k=="choices"){ size_t n; x>>n; for(size_t i=0;i<n;i++){ u32 v; x>>v; c.push_back(v);} } }
    char*pp=strdup(prop.c_str()); active_prop=pp; select_scen(); if(sel.empty()){ fprintf(stderr,"no scenario for %s\n",pp); return 3; }
    run_once(s,0,&c,true); if(!getenv("SIM_QUIET")) fputs(s->trace,stdout); char hb[32]; snprintf(hb,32,"%llx",(unsigned long long)s->hash);
    if(s->status==ST_VIOLATION){ if(!getenv("SIM_QUIET")&&s->report[0]) fputs(s->report,stdout); printf("class %s\nhash %s\n%s\n",vclass(s).c_str(),hb,symbolise(s->msg,self).c_str()); printf("VIOLATION property=%s replay=%s\n",prop.c_str(),replay.c_str()); return (vclass(s)==cls&&hash==hb)?1:(vclass(s)==cls?1:4); }
    printf("no violation (status %u)\n",s->status); return 0;
  }
  if(prop.empty()){ for(auto&x:scenarios()){ printf("%s:",x.name); for(auto p:x.props) printf(" %s",p); puts(""); } return 0; }
  char*pp=strdup(prop.c_str()); active_prop=pp; select_scen(); if(sel.empty()){ fprintf(stderr,"no scenario for %s\n",pp); return 3; }
  if(!known.empty()) load_known(known.c_str());
  u64 pseed=mix(seed*1000003+std::hash<std::string>()(prop)%1000000007ull);
  if(one!=~0ull){ run_once(s,mix(pseed+one),nullptr,true); fputs(s->trace,stdout); printf("status %u %s %s %s\nother %s %s\n%s\n",s->status,s->prop,s->rule,s->msg,s->other_prop,s->other_rule,s->report); return 0; }
  double t0=wall();
  WStat*ws=(WStat*)mmap(0,sizeof(WStat)*jobs,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); u64*hset=(u64*)mmap(0,8ull*HSET,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  u32*stop=(u32*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); u64*next=(u64*)(stop+16);
  std::vector<pid_t> pids; std::vector<u8*> covs;
  for(int w=0;w<jobs;w++){ u8*cv=(u8*)mmap(0,COVN,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); covs.push_back(cv);
    pid_t p=fork(); if(p==0){ cov=cv; Shm*m=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); WStat&W=ws[w]; W.first_viol=~0ull;
      for(;;){ u64 i=__sync_fetch_and_add(next,1); if(i>=runs||wall()-t0>budget||*stop) break; bool smp=i<3;
        run_once(m,mix(pseed+i),nullptr,smp||twice); 
        if(twice){ u64 h=m->hash; u32 st=m->status; run_once(m,mix(pseed+i),nullptr,false); std::vector<u32> c=rec(m); u64 h2=m->hash; run_once(m,0,&c,false); if(h!=h2||h!=m->hash||st!=m->status){ fprintf(stderr,"NONDETERMINISM run %llu: %llx %llx %llx\n",(unsigned long long)i,(unsigned long long)h,(unsigned long long)h2,(unsigned long long)m->hash); *stop=2; } }
        W.runs++; W.steps+=m->steps; W.blocks+=m->blocks; W.choices+=m->nchoices; if(m->anyfault) W.faulty++; if(m->simtime>1000000000000000ull) W.simus+=m->simtime-1000000000000000ull; for(int k=0;k<F_NKINDS;k++){ W.fired[k]+=m->fired[k]; W.opp[k]+=m->opp[k]; if(m->fired[k]) W.fruns[k]++; }
        for(int a=0;a<64&&m->probes[a][0];a++) for(int b=0;b<64;b++){ if(!W.probes[b][0]) memcpy(W.probes[b],m->probes[a],48); if(!strcmp(W.probes[b],m->probes[a])){ W.probe_n[b]+=m->probe_n[a]; break; } }
        for(int b=0;b<64;b++){ if(!W.scn[b][0]) memcpy(W.scn[b],m->scen,40); if(!strcmp(W.scn[b],m->scen)){ W.scn_n[b]++; break; } }
        if(smp){ snprintf(W.samples[i],1500,"%s",m->trace); W.sidx[i]=i+1; }
        u64 h=m->hash|1; if(m->steps>0||m->nchoices>3){ u32 k=(u32)(h>>20)&(HSET-1); for(int tr=0;tr<64;tr++){ u64 o=__sync_val_compare_and_swap(&hset[k],0,h); if(o==0){ W.distinct++; break; } if(o==h) break; k=(k+1)&(HSET-1);} }
        switch(m->status){ case ST_PASS: W.pass++; break; case ST_ENDED: W.ended++; break; case ST_OVERFLOW: W.overflow++; break; case ST_OTHER: { W.other++; char key[100]; snprintf(key,100,"%.7s/%.90s",m->other_prop,m->other_rule); for(int b=0;b<32;b++){ if(!W.oprop[b][0]) memcpy(W.oprop[b],key,100); if(!strcmp(W.oprop[b],key)){ W.on[b]++; break; } } break; }
          case ST_VIOLATION: { const Known*kn=is_known(m); if(kn){ W.known_hits[kn-&knowns[0]]++; break; } W.viol++; if(i<W.first_viol) W.first_viol=i; *stop=1; break; } }
      } W.done=1; _exit(0); }
    pids.push_back(p); }
  for(pid_t p:pids){ int st; waitpid(p,&st,0); }
  double el=wall()-t0; u64 fv=~0ull; WStat T; memset(&T,0,sizeof T); std::map<std::string,u64> probes,others,scn; u64 kh[32]={0}; std::string samples[3];
  bool dead=false; for(int w=0;w<jobs;w++){ WStat&W=ws[w]; if(!W.done) dead=true; T.runs+=W.runs; T.viol+=W.viol; T.other+=W.other; T.ended+=W.ended; T.overflow+=W.overflow; T.pass+=W.pass; T.simus+=W.simus; T.steps+=W.steps; T.blocks+=W.blocks; T.faulty+=W.faulty; T.choices+=W.choices; T.distinct+=W.distinct; for(int k=0;k<F_NKINDS;k++){ T.fired[k]+=W.fired[k]; T.opp[k]+=W.opp[k]; T.fruns[k]+=W.fruns[k]; } for(int b=0;b<64&&W.probes[b][0];b++) probes[W.probes[b]]+=W.probe_n[b]; for(int b=0;b<64&&W.scn[b][0];b++) scn[W.scn[b]]+=W.scn_n[b]; for(int b=0;b<32&&W.oprop[b][0];b++) others[W.oprop[b]]+=W.on[b]; if(W.runs) fv=std::min(fv,W.first_viol); for(int k=0;k<32;k++) kh[k]+=W.known_hits[k]; for(int k=0;k<3;k++) if(W.sidx[k]) samples[k]=W.samples[k]; }
  u64 ncov=0; for(u32 i=0;i<COVN;i++){ for(auto c:covs) if(c[i]){ ncov++; break; } } if(const char*co=getenv("SIM_COVOUT")){ std::ofstream f(co,std::ios::app); for(u32 i=0;i<COVN;i++){ for(auto c:covs) if(c[i]){ f<<i<<"\n"; break; } } }
  if(dead||*stop==2){ fprintf(stderr,"simulator error: %s\n",dead?"a worker died":"nondeterminism"); return 3; }
  int rc=0; std::string rpath;
  if(fv!=~0ull){
    run_once(s,mix(pseed+fv),nullptr,false); if(s->status!=ST_VIOLATION){ fprintf(stderr,"GATE: run %llu does not reproduce its violation\n",(unsigned long long)fv); return 3; }
    if(getenv("SIM_FIRST")){ printf("FIRST run %llu %s %s\n",(unsigned long long)fv,vclass(s).c_str(),symbolise(s->msg,self).c_str()); return 1; }
    std::string cls=vclass(s); std::vector<u32> c=rec(s); u64 h1=s->hash; run_once(s,0,&c,false); if(s->status!=ST_VIOLATION||vclass(s)!=cls||s->hash!=h1){ fprintf(stderr,"GATE: choice replay differs (class %s vs %s)\n",cls.c_str(),vclass(s).c_str()); return 3; }
    size_t before=c.size(); std::vector<u32> m=minimise(s,c,cls,tier=="thorough"?40:12);
    run_once(s,0,&m,true); if(s->status!=ST_VIOLATION||vclass(s)!=cls){ m=c; run_once(s,0,&m,true); }
    u64 h=s->hash; std::string dir=rdir; if(system(("mkdir -p '"+dir+"'").c_str())){} rpath=dir+"/"+prop+"-seed"+std::to_string(seed)+"-run"+std::to_string(fv)+".replay"; write_replay(rpath,prop,seed,fv,m,s,self);
    run_once(s,0,&m,false); if(s->hash!=h||s->status!=ST_VIOLATION){ fprintf(stderr,"GATE: minimised replay is not deterministic\n"); return 3; }
    setenv("SIM_QUIET","1",1); int r=system(("'"+std::string(self)+"' --replay '"+rpath+"' > /dev/null").c_str()); if(!WIFEXITED(r)||WEXITSTATUS(r)!=1){ fprintf(stderr,"GATE: fresh-process replay failed (%d)\n",r); return 3; }
    run_once(s,0,&m,true); printf("%s\n",s->trace); if(s->report[0]) printf("%s\n",s->report); printf("violated: %s\n  %s\n  (choices: %zu, minimised from %zu; %d minimisation runs)\n",cls.c_str(),symbolise(s->msg,self).c_str(),m.size(),before,attempts);
    printf("VIOLATION property=%s replay=%s\n",prop.c_str(),rpath.c_str()); rc=1;
  }
  if(dump||getenv("SIM_VERBOSE")){ printf("runs %llu pass %llu other %llu ended %llu overflow %llu distinct %llu faulty %llu cov %llu wall %.1f runs/s %.0f avg choices %.0f avg steps %.0f avg blocks %.0f\n",(unsigned long long)T.runs,(unsigned long long)T.pass,(unsigned long long)T.other,(unsigned long long)T.ended,(unsigned long long)T.overflow,(unsigned long long)T.distinct,(unsigned long long)T.faulty,(unsigned long long)ncov,el,T.runs/el,(double)T.choices/T.runs,(double)T.steps/T.runs,(double)T.blocks/T.runs); for(int k=0;k<F_NKINDS;k++) if(T.opp[k]||T.fired[k]) printf("  %-18s fired %llu in %llu runs\n",kind_name[k],(unsigned long long)T.fired[k],(unsigned long long)T.fruns[k]); for(auto&e:scn) printf("  scenario %s: %llu\n",e.first.c_str(),(unsigned long long)e.second); for(auto&e:probes) printf("  probe %s: %llu\n",e.first.c_str(),(unsigned long long)e.second); for(auto&e:others) printf("  OTHER %s: %llu\n",e.first.c_str(),(unsigned long long)e.second); }
  for(size_t k=0;k<knowns.size();k++) if(knowns[k].prop==prop) printf("KNOWN-FINDING: property=%s %s\n",prop.c_str(),knowns[k].text.c_str());
  if(!evid.empty()){
    std::ofstream e(evid); e<<"{\n \"property\": \""<<prop<<"\",\n \"tier\": \""<<tier<<"\",\n \"seed\": "<<seed<<",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": "<<T.runs<<",\n  \"distinct_nontrivial\": "<<T.distinct<<",\n  \"rule\": \"one evaluation = one simulated run of a generated workload against the real library code, decided by one seed; non-trivial = it made at least one library operation; distinct = different hash over the sequence of operations, outcomes, system calls and injected faults\",\n  \"simulated_runs_per_hour\": "<<(u64)(T.runs/el*3600)<<",\n  \"seeds_per_hour\": "<<(u64)(T.runs/el*3600)<<",\n  \"simulated_seconds\": "<<T.simus/1000000<<",\n  \"system_calls_and_allocations_simulated\": "<<T.steps<<",\n  \"runs_with_faults\": "<<T.faulty<<",\n  \"library_basic_blocks_executed\": "<<T.blocks<<",\n  \"library_basic_block_sites_reached\": "<<ncov<<",\n  \"runs_completed\": "<<T.pass<<",\n  \"runs_ended_early_by_fault_or_design\": "<<T.ended<<",\n  \"runs_ended_by_mismatch_belonging_to_another_property\": "<<T.other<<",\n  \"faults_injected\": {";
    bool first=true; for(int k=0;k<F_NKINDS;k++) if(T.fired[k]){ e<<(first?"":", ")<<"\""<<kind_name[k]<<"\": "<<T.fired[k]; first=false; } e<<"},\n  \"runs_per_fault_kind\": {"; first=true; for(int k=0;k<F_NKINDS;k++) if(T.fruns[k]){ e<<(first?"":", ")<<"\""<<kind_name[k]<<"\": "<<T.fruns[k]; first=false; } e<<"},\n  \"scenarios\": {"; first=true; for(auto&x:scn){ e<<(first?"":", ")<<"\""<<jesc(x.first)<<"\": "<<x.second; first=false; } e<<"},\n  \"probes_hit\": {"; first=true; for(auto&x:probes){ e<<(first?"":", ")<<"\""<<jesc(x.first)<<"\": "<<x.second; first=false; } e<<"},\n  \"other_property_mismatches\": {"; first=true; for(auto&x:others){ e<<(first?"":", ")<<"\""<<jesc(x.first)<<"\": "<<x.second; first=false; }
    e<<"},\n  \"real_components\": [\"all of /repo/srcs/toolbox/*.c, compiled from the working tree\", \"glibc stdio buffering and formatting\", \"glibc pure string/number functions\", \"fork of test-case children and their exit status\", \"mmap of ring-buffer memory\"],\n  \"simulated_components\": [\"malloc family\", \"descriptors, files, directories, devices\", \"pipes and sockets, peers, resolver\", \"clock, sleep, select/poll\", \"child completion order and time, wait\", \"popen children\", \"environment\", \"syslog\", \"rand\", \"signal interruptions (EINTR)\"],\n  \"samples\": [";
    first=true; for(int k=0;k<3;k++) if(!samples[k].empty()){ e<<(first?"":", ")<<"\""<<jesc(samples[k])<<"\""; first=false; } e<<"]\n },\n \"assumptions\": [\"the simulated kernel behaves like Linux for the calls the library makes (sim/kernel.cc)\", \"single-threaded use, as the library does not lock\", \"sampled executions: a clean batch is evidence, not proof\"],\n \"wall_s\": "<<el<<",\n \"violations\": "<<(rc?1:0)<<"\n}\n";
  }
  return rc;
}

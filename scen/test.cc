// Unit-test runner: honest verdicts (C18), dependencies, bounds and termination of the schedule (C19)
#include "common.h"
#include <toolbox/test.h>
#include <sys/mman.h>
#include <csignal>
#include <unistd.h>
extern "C" { FILE *sim_fopen(const char*,const char*); }
namespace {
enum Out { OK_, FAIL_, RET2, RET3, RET7, RET256, RETNEG, SEGV_, KILL_, ABRT_, EXIT1, N_OUT };
const char*on[]={"succeeds","fails","returns 2","returns 3","returns 7","returns 256","returns -256","segfaults","is killed","aborts","exits 1"};
const int MAXC_=100;
struct Case { std::string id; int suite; int out; std::vector<std::string> deps; bool reg=false; int started=0; int child=-1; int done_in=0; int failed_fork=0; bool nofn=false; };
struct Suite { std::string id; std::vector<std::string> deps; bool reg=false; std::vector<int> cases; };
std::vector<Case> cs; std::vector<Suite> ss; int *last_started; bool serial, interrupted; unsigned maxp; const char *killed_by=nullptr;
int nrun(){ int n=0; for(auto&c:children) if(c.pid<9000&&c.end>now_us()) n++; return n; }
bool ended(int i,int d=0); bool good(int i,int d=0); bool sskip(int s); int cidx(int,const std::string&);
bool ended(int i,int d){ Case&c=cs[i]; if(c.nofn){ if(d<50) for(auto&x:c.deps){ int k=cidx(c.suite,x); if(k>=0&&!ended(k,d+1)) return false; } return true; } if(c.child>=0) return children[c.child].end<=now_us(); return c.done_in>0; }
int cidx(int suite,const std::string&id){ for(int i:ss[suite].cases) if(cs[i].reg&&cs[i].id==id) return i; return -1; }
int sidx(const std::string&id){ for(size_t i=0;i<ss.size();i++) if(ss[i].reg&&ss[i].id==id) return i; return -1; }
// did the case really succeed, with a result the runner could collect?
bool good(int i,int d){ Case&c=cs[i]; if(c.nofn){ /* nothing to run: succeeds unless it has to be skipped */ if(d<50) for(auto&x:c.deps){ int k=cidx(c.suite,x); if(k>=0&&!good(k,d+1)) return false; } return d>=50||!sskip(c.suite); } if(c.out!=OK_) return false; if(serial) return c.done_in==1; return c.child>=0&&!children[c.child].lost&&children[c.child].reaped&&children[c.child].status==0; }
bool sgood(int s){ for(int i:ss[s].cases) if(cs[i].reg&&!good(i)) return false; return true; }
bool sskip(int s); bool sskip_(int s,int d){ if(d>10) return false; for(auto&x:ss[s].deps){ int k=sidx(x); if(k<0) continue; if(sskip_(k,d+1)||!sgood(k)) return true; } return false; }
bool sskip(int s){ return sskip_(s,0); }
void on_start(int i){ Case&c=cs[i]; c.started++; trace("  case %s/%s starts (it %s)",ss[c.suite].id.c_str(),c.id.c_str(),on[c.out]);
  CHECKP("C19",c.started==1,"started-twice","case %s was started twice",c.id.c_str());
  for(auto&d:c.deps){ int k=cidx(c.suite,d); if(k<0) continue; CHECKP("C19",ended(k),"dep-not-ended","case %s was started before %s, which it depends on, had ended",c.id.c_str(),d.c_str()); CHECKP("C19",good(k),"dep-failed","case %s was started although %s, which it depends on, did not succeed",c.id.c_str(),d.c_str()); }
  for(auto&d:ss[c.suite].deps){ int k=sidx(d); if(k<0) continue; for(int j:ss[k].cases) if(cs[j].reg){ CHECKP("C19",ended(j)||!cs[j].started,"suite-dep-not-ended","suite %s was started before %s, which it depends on, had ended",ss[c.suite].id.c_str(),d.c_str()); } CHECKP("C19",sgood(k)&&!sskip(k),"suite-dep-failed","a case of suite %s was started although suite %s, which it depends on, did not succeed",ss[c.suite].id.c_str(),d.c_str()); } }
int body(int i,u_test_case_t*tc){ Case&c=cs[i]; if(!serial){ *last_started=i+1; // in the child process
    switch(c.out){ case SEGV_: kill(getpid(),SIGSEGV); pause(); case KILL_: kill(getpid(),SIGKILL); pause(); case ABRT_: kill(getpid(),SIGABRT); pause(); case EXIT1: _exit(1); default: break; } }
  else { NoFault nf; on_start(i); if(draw(8)==7){ LIBCALL(u_test_case_printf(tc,"case %d says %s",i,"hello")); } if(draw(3)==2) advance(logu(22)); if(draw(40)==39&&deliver_signal(SIGINT)){ interrupted=true; probe("interrupted"); } c.done_in=1; }
  (void)tc; static const int rc[]={0,1,2,3,7,256,-256,1,1,1,1}; return rc[c.out]; }
template<int I> int fn(u_test_case_t*tc){ return body(I,tc); }
template<int... I> constexpr auto mk(std::integer_sequence<int,I...>){ return std::vector<int(*)(u_test_case_t*)>{fn<I>...}; }
auto FN=mk(std::make_integer_sequence<int,MAXC_>());
bool cyc(const std::vector<std::vector<int>>&g){ std::vector<int> st(g.size(),0); std::function<bool(int)> v=[&](int x){ if(st[x]==1) return true; if(st[x]==2) return false; st[x]=1; for(int y:g[x]) if(v(y)) return true; st[x]=2; return false; }; for(size_t i=0;i<g.size();i++) if(v(i)) return true; return false; }
int bad_called; int bad_rep(FILE*,u_test_s*,u_test_rep_tag_t){ bad_called++; return ~0; } int bad_srep(FILE*,u_test_suite_t*,u_test_rep_tag_t){ return draw(2)?0:(bad_called++,~0); } int bad_crep(FILE*,u_test_case_t*){ return draw(2)?0:(bad_called++,~0); }
struct Rep { std::string id, st; std::vector<std::pair<std::string,std::string>> cases; std::map<std::string,int> cnt; };
bool num(const std::string&l,const char*k,int&v){ size_t p=l.find(k); if(p==std::string::npos) return false; v=atoi(l.c_str()+p+strlen(k)); return true; }
}
static void scen_test(){
  cs.clear(); ss.clear(); interrupted=false; maxp=32; serial=false; killed_by=nullptr; if(!last_started) last_started=(int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); *last_started=0; bad_called=0; cs.reserve(128); ss.reserve(8); optind=0;
  baseline(); u_test_t*t=nullptr; bool anylost=false;
  std::string tid=draw(60)==59?std::string(draw(2)?127:128+draw(100),(char)116):"simtest"; if(LIBCALL(u_test_new(tid.c_str(),&t))){ CHECKP("C18",hard_faults()>0||tid.size()>=U_TEST_ID_MAX,"false-failure","u_test_new failed without a cause"); check_balance("failed u_test_new"); return; } CHECKP("C18",tid.size()<U_TEST_ID_MAX,"long-id","an overlong test id was accepted");
  serial=draw(4)==3; bool fewdeps=draw(2), wild=draw(4)==3; int order=draw(3);
  // plan
  size_t nsuites=0; std::vector<u_test_suite_t*> sp;
  while(nsuites<4&&(nsuites==0||more(2))){ Span a; nsuites++; Suite s; int si=ss.size(); s.id="suite"+std::to_string(si); if(draw(40)==39){ s.id=std::string(draw(2)?127:128+draw(100),(char)(97+si)); } ss.push_back(s); sp.push_back(nullptr);
    u_test_suite_t*ts=nullptr; u64 h0=hard_faults(); int rc=LIBCALL(u_test_suite_new(s.id.c_str(),&ts)); bool err=hard_faults()>h0; if(rc){ CHECKP("C18",err||s.id.size()>=U_TEST_ID_MAX,"false-failure","u_test_suite_new failed without a cause"); continue; } CHECKP("C18",s.id.size()<U_TEST_ID_MAX,"long-id","an overlong suite id was accepted");
    rc=LIBCALL(u_test_suite_add(ts,t)); CHECKP("C18",rc==0,"false-failure","u_test_suite_add failed"); sp[si]=ts; ss[si].reg=true; trace("suite %s",q(s.id,20).c_str());
    size_t n=0, lim=draw(100)==99?90:9; if(lim>9) probe("large-suite"); while(n<lim&&cs.size()<MAXC_&&(lim>9?draw(60)<59:more(4))){ Span b; n++; Case c; c.suite=si; int ci=cs.size(); c.id="case"+std::to_string(ci); if(draw(60)==59) c.id=std::string(draw(2)?127:128+draw(100),'c')+(draw(2)?"":std::to_string(ci)); for(auto&o:cs) if(o.id==c.id) c.id="case"+std::to_string(ci); c.out=draw(3)==2?(serial?draw(7):draw(N_OUT)):0; 
      bool viaobj=draw(3)==2; c.nofn=c.out==0&&draw(20)==19; h0=hard_faults(); std::vector<std::string> deps; size_t nd=0; while(nd<3&&more(fewdeps?1:2)){ nd++; switch(wild?draw(10):order?10:0){ case 10: break; case 9: deps.push_back(c.id); break; case 8: deps.push_back("case"+std::to_string(ci+1+draw(2))); break; case 7: deps.push_back(draw(4)==3?"nonesuch":"case0"); break; default: { auto&v=ss[si].cases; deps.push_back(v.empty()?"case"+std::to_string(ci):cs[v[draw(v.size())]].id); if(v.empty()) deps.pop_back(); } } if(!deps.empty()&&draw(6)==5) deps.push_back(deps.back()); }
      u_test_case_t*tc=nullptr; bool ok; if(viaobj){ ok=LIBCALL(u_test_case_new(c.id.c_str(),c.nofn?NULL:FN[ci],&tc))==0; if(ok){ ok=LIBCALL(u_test_case_add(tc,ts))==0; CHECKP("C18",ok,"false-failure","u_test_case_add failed"); } } else ok=LIBCALL(u_test_case_register(c.id.c_str(),c.nofn?NULL:FN[ci],ts))==0;
      if(!ok) CHECKP("C18",hard_faults()>h0||c.id.size()>=U_TEST_ID_MAX,"false-failure","a case could not be registered for no reason"); else CHECKP("C18",c.id.size()<U_TEST_ID_MAX,"long-id","an overlong case id was accepted");
      c.reg=ok; std::string dl; if(ok) for(auto&d:deps){ h0=hard_faults(); int r=viaobj&&draw(2)?LIBCALL(u_test_case_dep_register(d.c_str(),tc)):LIBCALL(u_test_case_depends_on(c.id.c_str(),d.c_str(),ts)); if(r) CHECKP("C19",hard_faults()>h0||d.size()>=U_TEST_ID_MAX,"false-failure","a dependency could not be recorded for no reason"); else { c.deps.push_back(d); dl+=" "+(d.size()>20?d.substr(0,20):d); } }
      cs.push_back(c); ss[si].cases.push_back(ci); trace("  case %s %s%s%s%s",q(c.id,20).c_str(),c.nofn?"has no function":on[c.out],dl.empty()?"":" needs",dl.c_str(),ok?"":" (not registered)"); }
    if(order&&!wild){ auto&v=ss[si].cases; u32 rot=order==2?draw(v.size()+1):0; auto pr=[&](size_t x){ return order==1?v.size()-x:(x*7+rot)%(v.size()+1)*100+x; }; size_t nd=0; while(v.size()>1&&nd<10&&more(fewdeps?2:5)){ Span b; nd++; int a=draw(v.size()), d=draw(v.size()); if(a==d||!cs[v[a]].reg) continue; if(pr(a)<pr(d)) std::swap(a,d); if(!cs[v[a]].reg||!cs[v[d]].reg) continue; u64 h0=hard_faults(); int r=LIBCALL(u_test_case_depends_on(cs[v[a]].id.c_str(),cs[v[d]].id.c_str(),ts)); if(r) CHECKP("C19",hard_faults()>h0,"false-failure","a dependency could not be recorded for no reason"); else { cs[v[a]].deps.push_back(cs[v[d]].id); trace("  case %s needs %s",q(cs[v[a]].id,20).c_str(),q(cs[v[d]].id,20).c_str()); } } } }
  for(size_t i=0;i<ss.size();i++) if(ss[i].reg){ size_t nd=0; while(nd<3&&more(1)){ Span a; nd++; int k=wild&&draw(4)==3?(int)draw(ss.size()):i?(int)draw(i):-1; if(k<0) continue; std::string d=draw(40)==39?"nosuite":ss[k].id; u64 h0=hard_faults(); int r=draw(2)?LIBCALL(u_test_suite_dep_register(d.c_str(),sp[i])):LIBCALL(u_test_suite_depends_on(ss[i].id.c_str(),d.c_str(),t)); if(r) CHECKP("C19",hard_faults()>h0||d.size()>=U_TEST_ID_MAX,"false-failure","a dependency could not be recorded for no reason"); else { ss[i].deps.push_back(d); trace("suite %s needs %s",q(ss[i].id,20).c_str(),q(d,20).c_str()); } } }
  bool unknown=false, circular=false; { std::vector<std::vector<int>> g(ss.size()); for(size_t i=0;i<ss.size();i++) if(ss[i].reg) for(auto&d:ss[i].deps){ int k=sidx(d); if(k<0) unknown=true; else g[i].push_back(k); } circular=cyc(g); std::vector<std::vector<int>> h(cs.size()); for(size_t i=0;i<cs.size();i++) if(cs[i].reg) for(auto&d:cs[i].deps){ int k=cidx(cs[i].suite,d); if(k<0) unknown=true; else h[i].push_back(k); } circular=circular||cyc(h); }
  // options
  std::vector<std::string> av={"runtest"}; int fmt=0; std::string out="/rep.out"; bool badrep=false, tostd=false;
  if(draw(2)){ fmt=1; av.push_back("-f"); av.push_back("xml"); } else if(draw(4)==3){ av.push_back("-f"); av.push_back("txt"); } if(serial) av.push_back("-s"); else if(draw(3)){ maxp=draw(6)==5?draw(40):1+draw(4); av.push_back("-p"); av.push_back(std::to_string(maxp)); } if(draw(8)==7) av.push_back("-v"); if(draw(30)==29) av.push_back("-d");
  if(draw(5)==4){ out="-"; tostd=true; } else if(draw(60)==59) out=std::string(4090+draw(10),'o');
  if(!tostd&&draw(4)==3&&out.size()<4000){ int r=LIBCALL(u_test_set_outfn(t,out.c_str())); CHECKP("C18",r==0,"false-failure","u_test_set_outfn failed"); } else { av.push_back("-o"); av.push_back(out); }
  if(draw(20)==19&&std::find(av.begin(),av.end(),"-f")==av.end()){ badrep=true; int w=draw(3); int r=w==0?LIBCALL(u_test_set_u_test_rep(t,bad_rep)):w==1?LIBCALL(u_test_set_u_test_suite_rep(t,bad_srep)):LIBCALL(u_test_set_u_test_case_rep(t,bad_crep)); CHECKP("C18",r==0,"false-failure","a reporter could not be set"); }
  if(draw(3)==2) fs_put("/rep.out",std::string(logu(12),'x'));
  if(draw(12)==11) fs_capacity(0,logu(11));
  std::vector<char*> argv; for(auto&a:av) argv.push_back((char*)a.c_str()); argv.push_back(nullptr); std::string cl; for(auto&a:av) cl+=" "+(a.size()>30?a.substr(0,30):a); trace("run:%s",cl.c_str());
  u32 dmode=draw(3); child_duration=[=]()->u64{ return dmode==0?1000:dmode==1?logu(24):1+draw(10); };
  bool sigs=draw(8)==7; on_wait_eintr=[&]{ if(sigs&&draw(2)&&deliver_signal(draw(2)?SIGTERM:SIGINT)){ interrupted=true; probe("interrupted"); } };
  on_fork=[&](int pid){ NoFault nf; int i=*last_started-1; *last_started=0; if(i<0){ trace("  child %d ended without running a case",pid); return; } cs[i].child=children.size()-1; on_start(i); int n=nrun(); if(n>1) probe("parallel-2"); if(n>3) probe("parallel-4"); if(maxp) CHECKP("C19",n<=(int)maxp,"too-many-children","%d children run at the same time, the maximum is %u",n,maxp); };
  if(!serial&&draw(10)==9){ children.push_back(ChildEv{9000,now_us(),now_us()+logu(20),0,-1,false,false}); probe("foreign-child"); }
  u64 h0=hard_faults(), m0=fired(F_MALLOC); int rc=-1, code=-1; bool exited=run_catch_exit([&]{ rc=LIBCALL(u_test_run(argv.size()-1,argv.data(),t)); },&code); on_fork=nullptr; on_wait_eintr=nullptr; child_duration=nullptr; optind=0;
  trace("u_test_run=%d%s",rc,exited?" (exit)":""); bool err=hard_faults()>h0; (void)anylost;
  u64 ff=fired(F_FORK); bool anystart=false; for(auto&c:cs) if(c.started) anystart=true;
  if(exited){ CHECKP("C18",code!=0,"exit-code","the runner exited with success without finishing"); CHECKP("C19",interrupted||out.size()>=4096,"exit","the runner called exit(%d) for no reason",code); for(auto&c:children) if(c.pid<9000) CHECKP("C19",c.end<=now_us(),"left-running","a test case is still running after the interrupted runner ended"); 
    end_run(); }
  CHECKP("C19",!interrupted,"interrupt-ignored","the run went on to its end (result %d) although it was interrupted",rc);
  if(circular||unknown){ CHECKP("C19",rc!=0,"circular-accepted","the plan has %s dependencies but the run is a success",circular?"circular":"unresolvable"); CHECKP("C19",!anystart||!circular,"circular-started","cases were started although the plan has circular dependencies"); if(unknown&&!circular&&anystart){ for(auto&c:cs) if(c.started) for(auto&d:c.deps) CHECKP("C19",cidx(c.suite,d)>=0,"unknown-dep","case %s was started although its dependency %s does not exist",c.id.c_str(),d.c_str()); } probe(circular?"circular":"unknown-dep"); LIBVOID(u_test_free(t)); for(auto&c:children) if(c.pid==9000) c.reaped=true; check_balance("test plan with circular dependencies"); return; }
  if(bad_called){ CHECKP("C18",rc!=0,"report-failed","a reporter failed %d time(s), yet the run is a success",bad_called); probe("reporter-failed"); }
  // verdicts that really hold
  bool allgood=true; for(size_t i=0;i<ss.size();i++) if(ss[i].reg&&!sgood(i)) allgood=false; if(rc==0) CHECKP("C18",allgood,"false-success","the run is reported as a success although not every case was run to a successful end");
  std::string text=tostd?stdout_text():fs_exists(out)?fs_data(out):std::string(); bool ran=anystart||!err;
  // everything startable started exactly once
  size_t unstarted=0; if(ran&&!interrupted) for(size_t i=0;i<cs.size();i++) if(cs[i].reg){ bool can=!sskip(cs[i].suite); for(auto&d:cs[i].deps){ int k=cidx(cs[i].suite,d); if(k>=0&&!good(k)) can=false; } if(can&&!cs[i].started&&!cs[i].nofn) unstarted++; if(!can) { CHECKP("C19",!cs[i].started,"not-skipped","case %s was started although a dependency failed",cs[i].id.c_str()); probe("skipped"); } }
  if(anystart) CHECKP("C19",unstarted<=ff,"not-started","%zu case(s) whose dependencies succeeded were never started",unstarted); else if(!err&&!interrupted) CHECKP("C19",unstarted==0,"not-started","no case was started");
  bool repfault=badrep||fired(F_OPEN)||fired(F_WRITE_ERR)||fired(F_WRITE_ENOSPC)||fired(F_CLOSE_ERR)||fired(F_MALLOC)>m0||fired(F_SIGACTION)||fired(F_UNAME);
  if(!err&&allgood&&!badrep&&!repfault&&out.size()<4096&&!interrupted) CHECKP("C18",rc==0,"false-failure","the run is reported as a failure although every case succeeded and nothing went wrong");
  // parse the report
  bool wellformed=true; if(fmt==1){ std::vector<std::string> st; for(size_t p=0;(p=text.find('<',p))!=std::string::npos;){ size_t e=text.find('>',p); if(e==std::string::npos){ wellformed=false; break; } std::string g=text.substr(p+1,e-p-1); p=e; if(g.empty()||g[0]=='?'||g.back()=='/') continue; if(g[0]=='/'){ if(st.empty()||st.back()!=g.substr(1)){ wellformed=false; break; } st.pop_back(); } else st.push_back(g.substr(0,g.find(' '))); } if(!st.empty()) wellformed=false; }
  std::vector<Rep> reps; std::map<std::string,int> tot; int v; bool tail=false; { size_t p=0; Rep*cur=nullptr; std::string pend; bool head=false; while(p<text.size()){ size_t e=text.find('\n',p); if(e==std::string::npos) break; std::string l=text.substr(p,e-p); p=e+1; if(l.rfind("[CHAT]",0)==0||l.rfind("{",0)==0) continue;
      if(fmt==0){ if(l.rfind("\t\t* [",0)==0&&l.size()>11){ if(cur) cur->cases.push_back({l.substr(11),l.substr(5,4)}); } else if(l.rfind("\t* [",0)==0&&l.size()>10){ tail=false; reps.push_back(Rep()); cur=&reps.back(); cur->id=l.substr(10); cur->st=l.substr(4,4); } else { std::map<std::string,int>*m=l[0]=='\t'?(cur?&cur->cnt:nullptr):&tot; if(m&&l[1]!='\t'){ if(num(l,"Number of test cases: ",v)||num(l,"Number of test suites: ",v)) (*m)["total"]=v; if(num(l," Passed: ",v)) (*m)["PASS"]=v; if(num(l," Failed: ",v)) (*m)["FAIL"]=v; if(num(l," Aborted: ",v)) (*m)["ABRT"]=v; if(num(l," Skipped: ",v)){ (*m)["SKIP"]=v; if(l[0]!='\t') tail=true; } } } }
      else { auto at=[&](const char*pre)->std::string{ size_t n=strlen(pre); if(l.rfind(pre,0)) return ""; size_t z=l.find_first_of("\"<",n); return l.substr(n,z-n); }; std::string x; if(l=="<?xml version=\"1.0\"?>") head=true; if((x=at("\t<test_suite id=\""))!=""){ reps.push_back(Rep()); cur=&reps.back(); cur->id=x; pend=""; } else if((x=at("\t\t<test_case id=\""))!=""){ if(cur) cur->cases.push_back({x,""}); } else if((x=at("\t\t\t<status>"))!=""){ if(cur&&!cur->cases.empty()) cur->cases.back().second=x; } else if((x=at("\t\t<status>"))!=""){ if(cur) cur->st=x; } else if(l=="</test>") tail=head; else { const char*ks[][2]={{"<total>","total"},{"<passed>","PASS"},{"<failed>","FAIL"},{"<aborted>","ABRT"},{"<skipped>","SKIP"}}; for(auto&k:ks){ std::map<std::string,int>*m=cur?&cur->cnt:&tot; if(num(l,k[0],v)) (*m)[k[1]]=v; } } } } }
  if(tail&&!tostd&&!badrep&&(rc==0||!repfault)) CHECKP("C18",wellformed,"report-malformed","the elements of the XML report are not properly nested"); bool complete=tail; if(rc==0||(!err&&!badrep&&!repfault&&out.size()<4096)) CHECKP("C18",complete,rc?"report-missing":"incomplete-report","%s, but the report is %s",rc?"nothing failed while reporting":"success",text.empty()?"missing":"incomplete");
  if(complete&&!badrep&&(rc==0||!repfault)){ size_t nreg=0; for(auto&s:ss) if(s.reg) nreg++; CHECKP("C18",reps.size()==nreg,"report-suites","the report lists %zu suites, %zu are registered",reps.size(),nreg);
    std::map<std::string,int> sc; for(size_t i=0;i<ss.size();i++) if(ss[i].reg){ std::vector<Rep*> r; for(auto&x:reps) if(x.id==ss[i].id) r.push_back(&x); CHECKP("C18",r.size()==1,"report-suite","suite %s appears %zu times in the report",ss[i].id.c_str(),r.size()); Rep&R=*r[0]; sc[R.st]++; std::map<std::string,int> cc; size_t nc=0;
      bool sk=sskip(i); CHECKP("C18",(R.st=="PASS")==(sgood(i)&&!sk)||interrupted,"suite-verdict","suite %s is reported as %s, but %s",ss[i].id.c_str(),R.st.c_str(),sk?"a suite it depends on did not succeed":sgood(i)?"all of its cases succeeded":"not all of its cases succeeded"); if(!interrupted) CHECKP("C18",(R.st=="SKIP")==sk,"suite-skip","suite %s is reported as %s",ss[i].id.c_str(),R.st.c_str());
      for(int k:ss[i].cases) if(cs[k].reg){ nc++; std::vector<std::string> vs; for(auto&x:R.cases) if(x.first==cs[k].id) vs.push_back(x.second); CHECKP("C18",vs.size()==1,"report-case","case %s appears %zu times in the report",cs[k].id.c_str(),vs.size()); std::string V=vs[0]; cc[V]++; Case&c=cs[k]; bool lost=c.child>=0&&children[c.child].lost;
        if(V=="PASS") CHECKP("C18",good(k),"false-pass","case %s is reported as passed, but it %s",c.id.c_str(),!c.started?"was never started":lost?"could not be waited for":on[c.out]); else if(!c.nofn||!interrupted) CHECKP("C18",!good(k),"false-fail","case %s succeeded but is reported as %s",c.id.c_str(),V.c_str());
        if(V=="SKIP"&&c.out!=RET3&&!interrupted) CHECKP("C18",!c.started,"false-skip","case %s was run but is reported as skipped",c.id.c_str()); if(c.started&&!lost&&c.out==FAIL_) CHECKP("C18",V=="FAIL","verdict","case %s failed but is reported as %s",c.id.c_str(),V.c_str()); if(c.started&&!lost&&(c.out==SEGV_||c.out==KILL_||c.out==ABRT_)) CHECKP("C18",V=="ABRT","verdict","case %s was killed by a signal but is reported as %s",c.id.c_str(),V.c_str());
        if(c.nofn) probe("no-function"); bool dep=sk; for(auto&d:c.deps){ int z=cidx(c.suite,d); if(z>=0&&!good(z)) dep=true; } if(dep&&!interrupted) CHECKP("C18",V=="SKIP","not-skip","case %s could not be run because of a failed dependency but is reported as %s",c.id.c_str(),V.c_str()); if(lost) probe("lost-child"); }
      CHECKP("C18",R.cases.size()==nc,"report-cases","the report lists %zu cases for suite %s, %zu are registered",R.cases.size(),ss[i].id.c_str(),nc);
      CHECKP("C18",R.cnt["total"]==(int)nc,"report-counts","suite %s: %d cases counted, %zu registered",ss[i].id.c_str(),R.cnt["total"],nc); for(const char*k:{"PASS","FAIL","ABRT","SKIP"}) CHECKP("C18",R.cnt[k]==cc[k],"report-counts","suite %s: the summary counts %d %s, the cases say %d",ss[i].id.c_str(),R.cnt[k],k,cc[k]); }
    CHECKP("C18",tot["total"]==(int)nreg,"report-counts","%d suites counted, %zu registered",tot["total"],nreg); for(const char*k:{"PASS","FAIL","ABRT","SKIP"}) CHECKP("C18",tot[k]==sc[k],"report-counts","the summary counts %d %s suites, the suites say %d",tot[k],k,sc[k]); }
  LIBVOID(u_test_free(t)); for(auto&c:children) if(c.pid==9000) c.reaped=true; check_balance("unit test run");
}
static Reg r1("test-runner",{"C18","C19"},scen_test,1);

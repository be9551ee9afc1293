// Log calls: complete, once, to the right place; errno and lock discipline (C11)
#include "common.h"
#include <u/toolbox/log.h>
#include <u/toolbox/carpal.h>
namespace {
struct Del { int sink; int level; int fac; std::string s; }; std::vector<Del> got; int depth, maxdepth; int lockarg, unlockarg; bool haslock, inhook; int hookarg[3]; int cur_hook; /*0 none*/ int reent; 
int sink_at_lock; std::function<void()> other; bool other_running;
int hook_n(void*arg,int level,const char*s,int n){ if(arg!=&hookarg[n]) fail("C11","hook-argument","hook %d was called with another hook's argument",n); if(haslock&&depth<1) fail("C11","not-locked","a message is being delivered while the log lock is not held"); got.push_back({n,level,0,S_(s)}); trace("  hook%d(%d, %s)",n,level,q(S_(s),80).c_str()); if(reent&&!inhook){ inhook=true; reent--; probe("log-from-hook"); u_log_write_ex(LOG_USER,LOG_INFO,0,0,"h.c",1,"hook","from the hook"); inhook=false; } if(draw(3)) errno=draw(2)?ENOSPC:0; return draw(4)==3?-1:0; }
int hook1(void*a,int l,const char*s){ return hook_n(a,l,s,1); } int hook2(void*a,int l,const char*s){ return hook_n(a,l,s,2); }
u_log_hook_t HK[3]={nullptr,hook1,hook2};
int l_lock(void*a){ if(a!=&lockarg) fail("C11","lock-argument","the lock callback got a wrong argument"); if(depth==0&&other&&!other_running){ other_running=true; auto f=other; other=nullptr; probe("other-thread-first"); f(); other_running=false; } depth++; maxdepth=std::max(maxdepth,depth); if(depth==1) sink_at_lock=cur_hook; if(draw(4)==3) errno=EDEADLK; return 0; }
int l_unlock(void*a){ if(a!=&unlockarg) fail("C11","lock-argument","the unlock callback got a wrong argument"); if(depth<=0) fail("C11","lock-pairs","the unlock callback was called %s",depth?"too often":"without a matching lock"); depth--; if(draw(4)==3) errno=EPERM; return 0; }
size_t sysmark; 
void collect(){ for(;sysmark<syslog_recs.size();sysmark++) got.push_back({0,syslog_recs[sysmark].pri&7,syslog_recs[sysmark].pri&~7,syslog_recs[sysmark].msg}); }
const char*LBL[]={"emg","alr","crt","err","wrn","ntc","inf","dbg"};
std::string esc(int err){ if(!err) return ""; return "[errno: "+std::to_string(err)+", "+strerror(err)+"]"; }
std::string fmtline(int lev,bool ctx,const std::string&file,int line,const std::string&func,const std::string&m,int err){ std::string s=std::string("[")+LBL[lev]+"][4242:"; if(ctx) s+=file+":"+std::to_string(line)+":"+func; else s+="::"; return s+"] "+m+" "+esc(err); }
std::string text(){ switch(draw(6)){ case 0: return "hello"; case 1: return rbytes(draw(60),0); case 2: { std::string s; int n=draw(40); while(n--) s+=(char)(1+draw(255)); return s; } case 3: return std::string(1010+draw(30),'L'); case 4: return std::string(940+draw(90),'M'); default: if(draw(40)==39) return std::string(logu(17),'X'); return draw(2)?std::string(logu(12),'N'):"100% of %s and %n and %d"; } }
// carpal macros: one function per level
#define HERE (*ln=__LINE__)
#define GEN(P,F) int F(int op,int c,const char*m,int*ln,int*ev){ int rc=0; switch(op){ \
  case 0: HERE; u_##P("%s",m); return 100; case 1: HERE; P##_err("%s",m); case 2: HERE; P##_if(((*ev)++,c)); return 100; case 3: HERE; P##_ifm(((*ev)++,c),"%s",m); return 100; \
  case 4: HERE; P##_return_if(((*ev)++,c),7); return 100; case 5: HERE; P##_return_sif(((*ev)++,c),7); return 100; case 6: HERE; P##_return_ifm(((*ev)++,c),7,"%s",m); return 100; case 7: HERE; P##_return_sifm(((*ev)++,c),7,"%s",m); return 100; \
  case 8: HERE; P##_err_if(((*ev)++,c)); return 100; case 9: HERE; P##_err_sif(((*ev)++,c)); return 100; case 10: HERE; P##_err_ifm(((*ev)++,c),"%s",m); return 100; case 11: HERE; P##_err_sifm(((*ev)++,c),"%s",m); return 100; \
  case 12: HERE; P##_err_rcif(((*ev)++,c),9); return 100; case 13: HERE; P##_goto_if(((*ev)++,c),other_label); return 100; case 14: HERE; P##_strerror(c); return 100; case 15: HERE; P##_ifb(((*ev)++,c)) return 11; return 100; } \
 other_label: return 10; err: return 8+rc; }
GEN(emerg,m_emerg) GEN(alert,m_alert) GEN(crit,m_crit) GEN(err,m_err) GEN(warn,m_warn) GEN(notice,m_notice) GEN(info,m_info) GEN(con,m_con)
#define GENDBG 
typedef int (*mf)(int,int,const char*,int*,int*); mf MF[]={m_emerg,m_alert,m_crit,m_err,m_warn,m_notice,m_info,m_con}; const char*MN[]={"m_emerg","m_alert","m_crit","m_err","m_warn","m_notice","m_info","m_con"};
const char*OPN[]={"u_X","X_err","X_if","X_ifm","X_return_if","X_return_sif","X_return_ifm","X_return_sifm","X_err_if","X_err_sif","X_err_ifm","X_err_sifm","X_err_rcif","X_goto_if","X_strerror","X_ifb"};
void set_hook(int n){ u_log_hook_t old=(u_log_hook_t)(intptr_t)1; void*pa=(void*)1; bool want=draw(3); int rc=want?LIBCALL(u_log_set_hook(HK[n],n?&hookarg[n]:NULL,&old,&pa)):LIBCALL(u_log_set_hook(HK[n],n?&hookarg[n]:NULL,NULL,NULL)); CHECKP("C11",rc==0,"set-hook","u_log_set_hook returned %d",rc);
  if(want){ CHECKP("C11",old==HK[cur_hook],"old-hook","u_log_set_hook handed back the wrong old hook"); CHECKP("C11",pa==(cur_hook?&hookarg[cur_hook]:NULL),"old-hook","u_log_set_hook handed back the wrong old argument"); } cur_hook=n; trace("op set hook %d%s",n,other_running?" (by another thread)":""); }
}
static void scen_log(){
  depth=maxdepth=0; haslock=inhook=false; cur_hook=0; reent=0; other=nullptr; other_running=false; got.clear(); sysmark=syslog_recs.size(); std_faults=true; baseline(); size_t nops=0;
  while(nops<15&&more(6)){ Span sp; nops++; int op=draw(10); got.clear(); collect(); got.clear(); 
    if(op==8){ set_hook(draw(3)); CHECKP("C11",depth==0,"lock-pairs","after u_log_set_hook the lock is held %d time(s)",depth); continue; }
    if(op==9){ bool on=draw(4)!=3; { NoFault nf; int r1=LIBCALL(u_log_set_lock(on?l_lock:NULL,&lockarg)), r2=LIBCALL(u_log_set_unlock(on?l_unlock:NULL,&unlockarg)); CHECKP("C11",r1==0&&r2==0,"set-lock","installing the lock callbacks returned %d/%d",r1,r2); } haslock=on; trace("op %s lock callbacks",on?"set":"remove"); continue; }
    { static const int fs[]={LOG_USER,LOG_DAEMON,LOG_LOCAL0,LOG_KERN}; facility=fs[draw(4)]; }
    if(draw(12)==11){ // console variant called directly
      std::string m=text(); int err=draw(2)?0:ENOENT,en=draw(2)?EINTR:0; size_t o0=stdout_text().size(); u64 h0=hard_faults(); errno=en; int rc=LIBCALL(u_console_write_ex(err,"f.c",1,"f","%s!%d",m.c_str(),7)); int after=errno; bool flt=hard_faults()>h0; trace("op u_console_write_ex(%d, message of %zu)=%d",err,m.size(),rc);
      CHECKP("C11",after==en,"errno","errno was %d before a console message and %d after it",en,after); collect(); CHECKP("C11",got.empty(),"console","a console message went to the log too"); CHECKP("C11",depth==0,"lock-pairs","the lock is held %d time(s) after the call",depth);
      std::string o=stdout_text().substr(o0), w=m+"!7"+(err?" "+esc(err):"")+"\n"; if(!flt){ CHECKP("C11",rc==0,"false-failure","the message was written but the call failed"); CHECKP("C11",o==w,"console","stderr received %s instead of %s",q(o,200).c_str(),q(w,200).c_str()); } else probe("console-fault"); continue; }
    bool ctx; int lev,fac=facility,err=0,line=0,rc=0; std::string file,func,m=text(),full; bool console=false; int evals=0; int en=draw(3)==0?0:draw(3)==0?ENOENT:EINTR; int mop=0,c=1; bool macro=op>=4, fmtkind=false; size_t out0=stdout_text().size();
    if(haslock&&draw(3)==2){ int nh=draw(4); other=[nh]{ bool l=in_lib; if(nh<3) set_hook(nh); else { NoFault nf; u_log_write_ex(LOG_USER,LOG_INFO,0,0,"o.c",1,"other","from another thread"); trace("op another thread logs"); } in_lib=l; }; }
    reent=!macro&&cur_hook&&draw(4)==3; sink_at_lock=cur_hook; u64 h0=hard_faults(); 
    if(!macro){ lev=draw(8); { static const int fs[]={LOG_USER,LOG_DAEMON,LOG_LOCAL7,LOG_KERN}; fac=fs[draw(4)]; } ctx=draw(2); err=draw(3)==0?0:draw(3)==0?1+draw(133):ENOENT; file=draw(8)==7?std::string(draw(300),'f'):"file.c"; line=draw(2)?draw(100000):1; func=draw(8)==7?std::string(draw(100),'g'):"func"; int v=draw(10000); int fk=draw(3); errno=en;
      if(fk==0) rc=LIBCALL(u_log_write_ex(fac,lev,ctx?LOG_WRITE_FLAG_CTX:0,err,file.c_str(),line,func.c_str(),"%s",m.c_str())); else if(fk==1){ rc=LIBCALL(u_log_write_ex(fac,lev,ctx?1:0,err,file.c_str(),line,func.c_str(),"%d-%s-%5d",v,m.c_str(),line)); char b[64]; snprintf(b,64,"%5d",line); m=std::to_string(v)+"-"+m+"-"+b; } else { rc=LIBCALL(u_log_write_ex(fac,lev,ctx?1:0,err,file.c_str(),line,func.c_str(),"plain text, 100%%")); m="plain text, 100%"; } 
      trace("op u_log_write_ex(%d,%d,%d,%d, message of %zu)=%d",fac,lev,ctx,err,m.size(),rc); }
    else { int which=draw(8); mop=draw(16); if(draw(5)==4) c=0; if(mop==14) c=draw(2)?ENOENT:EIO; lev=which; console=which==7; if(console) lev=0; ctx=which!=6; errno=en; rc=LIBCALL(MF[which](mop,c,m.c_str(),&line,&evals)); int after=errno; file=strrchr(__FILE__,'/')?__FILE__:__FILE__; func=MN[which];
      bool should=mop<=1||mop==14||c; int wr=mop==0||mop==14?100:mop==1?8:!c?100:mop<=3?100:mop<=7?7:mop<=11?8:mop==12?17:mop==13?10:mop==15?11:100; 
      trace("op %s/%s(cond %d, message of %zu)=%d",MN[which],OPN[mop],c,m.size(),rc);
      CHECKP("C11",rc==wr,"macro-flow","%s of %s with a %s condition took the wrong way (%d instead of %d)",OPN[mop],MN[which],c?"true":"false",rc,wr); CHECKP("C11",evals==(mop<=1||mop==14?0:1),"macro-eval","%s of %s evaluated its condition %d times",OPN[mop],MN[which],evals);
      if(!should){ collect(); CHECKP("C11",got.empty()||other_running||!other,"logged-anyway","%s of %s logged though its condition is false",OPN[mop],MN[which]); CHECKP("C11",got.empty()&&stdout_text().size()==out0,"logged-anyway","%s of %s logged though its condition is false",OPN[mop],MN[which]); other=nullptr; CHECKP("C11",depth==0,"lock-pairs","the lock is held %d time(s) after the call",depth); continue; }
      if(mop==5||mop==7||mop==9||mop==11) err=en; fac=facility; if(mop==14){ m="errno: "+std::to_string(c)+" ("+strerror(c)+")"; } else if(mop==2||mop==4||mop==5||mop==8||mop==9||mop==12||mop==13||mop==15) m="((*ev)++,c)"; 
      CHECKP("C11",after==en,"errno","errno was %d before a log call and %d after it",en,after); errno=en; rc=0; }
    if(!macro) CHECKP("C11",errno==en,"errno","errno was %d before a log call and %d after it",en,errno);
    CHECKP("C11",depth==0,"lock-pairs","the lock is held %d time(s) after the call",depth); other=nullptr;
    bool flt=hard_faults()>h0; collect();
    if(console&&flt){ CHECKP("C11",got.empty(),"console","a console message went to the log too"); probe("console-fault"); continue; }
    if(console){ std::string o=stdout_text().substr(out0), w=m+(err?" "+esc(err):"")+"\n"; CHECKP("C11",o==w,"console","stderr received %s instead of %s",q(o,200).c_str(),q(w,200).c_str()); CHECKP("C11",got.empty(),"console","a console message went to the log too"); continue; }
    full=fmtline(lev,ctx,file,line,func,m,err); int nother=0,nhook=0; std::vector<Del> mine; for(auto&d:got){ if(d.s.find("from another thread")!=std::string::npos&&d.s.find("][4242:::] from")!=std::string::npos) nother++; else if(d.s.find("[4242:::] from the hook")!=std::string::npos) nhook++; else mine.push_back(d); }
    CHECKP("C11",nother<=1&&nhook<=1,"twice","a message was delivered more than once");
    if(mine.empty()){ if(macro) CHECKP("C11",flt||m.size()>=1024||(sink_at_lock&&full.size()>=1024),"lost","a message of %zu characters (%zu with its context) was not delivered",m.size(),full.size()); else { CHECKP("C11",rc!=0,"silently-lost","a message of %zu characters (%zu with its context) was not delivered to the %s, yet the call reported success",m.size(),full.size(),sink_at_lock?"hook":"syslog"); CHECKP("C11",flt||m.size()>=1024||(sink_at_lock&&full.size()>=1024),"lost","a message of %zu characters (%zu with its context) was refused",m.size(),full.size()); } probe("dropped"); continue; }
    CHECKP("C11",mine.size()==1,"twice","the message was delivered %zu times",mine.size()); auto&d=mine[0]; CHECKP("C11",d.sink==sink_at_lock,"wrong-sink","the message went to %s while %s is in force",d.sink?"a hook":"syslog",sink_at_lock?"a hook":"syslog"); CHECKP("C11",d.level==lev,"priority","the message of level %d was delivered with level %d",lev,d.level); if(!d.sink) CHECKP("C11",d.fac==fac,"facility","the message was delivered with facility %d instead of %d",d.fac>>3,fac>>3);
    CHECKP("C11",d.s==full,"altered","delivered %s (%zu), logged %s (%zu)",q(d.s,150).c_str(),d.s.size(),q(full,150).c_str(),full.size());
    if(!macro) CHECKP("C11",rc==0,"false-failure","the message was delivered but the call failed");
  }
  { NoFault nf; u_log_set_lock(NULL,NULL); u_log_set_unlock(NULL,NULL); u_log_set_hook(NULL,NULL,NULL,NULL); } check_balance("logging");
}
static Reg r1("log",{"C11"},scen_log,1);

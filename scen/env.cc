// Environment load: all of the child's variables, or an error (C10)
#include "common.h"
namespace {
std::string val(){ switch(draw(7)){ case 0: return "v"+std::to_string(draw(100)); case 1: return ""; case 2: { std::string s; int n=1+draw(12); static const char cs[]="ab =#'\"$\\;:\t`-_PFX_"; while(n--) s+=cs[draw(sizeof cs-1)]; return s; } case 3: return std::string(1000+draw(60),'l'); case 4: return std::string(logu(13),'w')+"="+std::string(logu(11),'x'); case 5: { std::string s; int n=logu(11); for(int i=0;i<n;i++) s+=(char)('a'+i%26); return s; } default: { std::string s; int n=1+draw(20); while(n--) s+=(char)(1+draw(255)); for(auto&c:s) if(c=='\n') c=' '; return s; } } }
const char*NAMES[]={"PFX_A","PFX_B","PFX_","PFX","XPFX_A","PATH","HOME","pfx_A","PFX_LONG_NAME","QQ","_PFX_A","PFX_A_B","P"};
const char*PRE[]={"PFX_","PFX_A","P","","NOPE_","PFX_LONG_NAME"};
}
static void scen_env(){
  fs_mkdir("/etc"); env.clear(); { size_t n=0; while(n<5&&more(2)){ Span sp; n++; env[NAMES[draw(13)]]=val(); } }
  baseline(); size_t nops=0;
  while(nops<5&&more(2)){ Span sp; nops++;
    std::string file=draw(8)==7?"/etc/"+std::string(draw(3)==2?1000+draw(60):200,'d')+".conf":draw(2)?"/etc/b.conf":"/etc/a.conf"; bool exists=draw(10)!=9; if(exists) fs_put(file,"export ..."); else fs_rm(file);
    std::map<std::string,std::string> ce=env; std::vector<std::string> order; size_t n=0; while(n<8&&more(3)){ Span s2; n++; ce[NAMES[draw(13)]]=val(); }
    std::string out; size_t junk=0; auto jl=[&]{ static const char*j[]={"hello","PFX_noequals","","a b c"}; out+=std::string(j[draw(4)])+"\n"; junk++; }; if(draw(8)==7) jl();
    std::vector<std::pair<std::string,std::string>> kv(ce.begin(),ce.end()); for(size_t i=kv.size();i>1;i--) std::swap(kv[i-1],kv[draw(i)]); for(auto&p:kv) { out+=p.first+"="+p.second+"\n"; if(draw(30)==29) jl(); }
    int status=0,ee=0; bool nonl=false; switch(draw(10)){ case 9: status=(1+draw(3))<<8; out=draw(2)?out.substr(0,draw(out.size()+1)):std::string(); break; case 8: status=draw(2)?9:2; out=out.substr(0,draw(out.size()+1)); break; case 7: if(!out.empty()){ out.pop_back(); nonl=true; } break; case 6: if(draw(2)){ ee=EIO; out=out.substr(0,draw(out.size()+1)); } break; }
    std::string pre=PRE[draw(6)]; size_t np=popen_cmds.size(); on_popen=[&](const std::string&,PopenScript&ps){ ps.out=out; ps.status=status; ps.end_errno=ee; return true; };
    std::map<std::string,std::string> before=env; u64 h0=hard_faults(), m0=mem_mark(); int rc=LIBCALL(u_env_init(pre.c_str(),file.c_str())); bool err=hard_faults()>h0; on_popen=nullptr;
    trace("op u_env_init(%s, %s)=%d; child %s status %x, printed %s%s",q(pre).c_str(),q(file).c_str(),rc,exists?"":"(no file)",status,q(out,200).c_str(),err?" (fault)":"");
    bool ran=popen_cmds.size()>np; if(ran) CHECKP("C10",popen_cmds.back().find(file)!=std::string::npos,"wrong-file","the child was told to run %s, not to source %s",popen_cmds.back().c_str(),file.c_str());
    std::map<std::string,std::string> want=before; for(auto&p:ce) if(p.first.compare(0,pre.size(),pre)==0) want[p.first]=p.second;
    if(rc==0){ CHECKP("C10",exists&&ran,"no-child","success although %s",exists?"no child was run":"the file does not exist"); CHECKP("C10",status==0,"child-failed","success although the child ended with status 0x%x",status); CHECKP("C10",!ee,"read-error","success although the child's output could not be read to the end");
      for(auto&p:want){ CHECKP("C10",env.count(p.first),"not-set","success, but variable %s printed by the child is not set",p.first.c_str()); CHECKP("C10",env[p.first]==p.second,before.count(p.first)&&p.first.compare(0,pre.size(),pre)?"foreign":"altered","success, but %s is %s (%zu characters) instead of %s (%zu)",p.first.c_str(),q(env[p.first]).c_str(),env[p.first].size(),q(p.second).c_str(),p.second.size()); if(p.second.size()>1010) probe("long-line"); }
      CHECKP("C10",env.size()==want.size(),"extra","variables were set that the child did not print"); if(nonl) probe("no-final-newline"); }
    else CHECKP("C10",err||!exists||status||ee||file.size()>950,"false-failure","u_env_init failed although the child ended well and no fault occurred");
    for(auto&p:before) if(p.first.compare(0,pre.size(),pre)) CHECKP("C10",env.count(p.first)&&env[p.first]==p.second,"foreign","variable %s, which does not have the prefix %s, was changed",p.first.c_str(),q(pre).c_str());
    for(auto&p:env) if(p.first.compare(0,pre.size(),pre)) CHECKP("C10",before.count(p.first),"foreign","variable %s, which does not have the prefix %s, was added",q(p.first).c_str(),q(pre).c_str());
    const char*nm=NAMES[draw(13)]; const char*v=LIBCALL(u_env_var(nm)); CHECKP("C10",env.count(nm)?v&&env[nm]==v:!v,"u_env_var","u_env_var(%s) is %s, the variable is %s",nm,v?q(v).c_str():"NULL",env.count(nm)?q(env[nm]).c_str():"unset");
    CHECKP("C10,C20",stream_count()==0,"leak-child","the child's pipe is still open (child never waited for)"); if(status==0&&rc) probe("failed-load"); if(status) probe("child-failed"); (void)junk; (void)m0; }
  check_balance("environment load","C10");
}
static Reg r1("env",{"C10"},scen_env,1);

// Password database: answers follow the newest successfully loaded snapshot (C09)
#include "common.h"
namespace {
struct Rec { std::string user, pass, opaque; bool hasop; };
struct Ver { std::vector<Rec> recs; bool gone=false; };
const char*PATH="/etc/passwd";
std::string pwhash(const std::string&p){ u32 h=2166136261u; for(char c:p){ h^=(unsigned char)c; h*=16777619u; } char b[12]; snprintf(b,12,"%08x",h); return b; }
int hash_len; bool hash_nonul;
int cb_hash(const char*in,size_t n,char out[]){ std::string h=pwhash(std::string(in,n)); memcpy(out,h.data(),8); if(hash_len>9) memset(out+8,0,hash_len-8); else if(!hash_nonul) out[8]=0; return 0; }
struct H { std::string d; size_t p=0; bool open=true; }; std::set<H*> hs; int opens,closes; u64 cver; std::string cdata; bool cgone, badload;
int cb_open(const char*uri,void**ph){ (void)uri; if(fault(F_CALLBACK)){ trace("  backend: open fails"); return ~0; } if(cgone){ trace("  backend: open: no such resource"); return ~0; } H*h=new H; h->d=cdata; hs.insert(h); opens++; *ph=h; return 0; }
char*cb_load(char*b,int n,void*a){ H*h=(H*)a; if(!hs.count(h)||!h->open){ badload=true; return NULL; } if(n<2||h->p>=h->d.size()) return NULL; size_t k=h->d.find('\n',h->p); k=k==std::string::npos?h->d.size():k+1; k=std::min<size_t>(k-h->p,n-1); memcpy(b,h->d.data()+h->p,k); b[k]=0; h->p+=k; return b; }
void cb_close(void*a){ H*h=(H*)a; if(!hs.count(h)) fail("C20","backend-close","the close callback was called on a handle never opened"); if(!h->open) fail("C20","backend-double-close","the close callback was called twice on one handle"); h->open=false; closes++; }
int cb_notify(const char*uri,time_t last,time_t*pn){ (void)uri; if((u64)last==cver) return 0; *pn=cver; return 1; }
const char*UN[]={"jake","steve","donald","ja","jakes","#root","j ake","x"};
std::string word(){ static const char cs[]="abcdefgh 0123456789!$%&/()=?#-_.@"; std::string s; int n=1+draw(10); while(n--) s+=cs[draw(sizeof cs-1)]; return s; }
}
static void scen_pwd(){
  for(auto h:hs) delete h; hs.clear(); opens=closes=0; cver=0; cgone=false; badload=false; fs_mkdir("/etc");
  bool mem=draw(3)!=2, file=draw(3)!=2, hashed=draw(3)==2; hash_nonul=draw(4)==3; hash_len=hash_nonul?8:draw(2)?8:9; if(hash_len==8) hash_nonul=draw(2); if(!hash_nonul&&draw(12)==11){ static const int big[]={255,256,300,65535,65536,70000}; hash_len=big[draw(6)]; probe("pwd-long-hash"); } bool notify=file||draw(6)!=5, doclose=draw(8)!=7; 
  std::vector<Ver> vers; std::set<size_t> poss; /* versions the snapshot may hold */ poss.insert(~(size_t)0); /* nothing loaded */ std::map<std::string,std::string> plain;
  baseline(); u_pwd_t*p=NULL; auto init=[&](const char*uri){ const char*un=file&&!uri?PATH:uri?uri:"db"; return file?u_pwd_init_file(un,hashed?cb_hash:NULL,hashed?hash_len:0,mem,&p):u_pwd_init(un,cb_open,cb_load,doclose?cb_close:NULL,notify?cb_notify:NULL,hashed?cb_hash:NULL,hashed?hash_len:0,mem,&p); };
  if(draw(10)==9){ // a resource name beyond U_FILENAME_MAX can't be stored, so it has to be refused
    int k=draw(3); std::string uri(k==2?U_FILENAME_MAX+1+draw(300):U_FILENAME_MAX+1,'u'); if(file) uri[0]='/'; int rc=LIBCALL(init(uri.c_str())); trace("op init with a name of %zu=%d",uri.size(),rc); CHECKP("C09",rc!=0,"init-overlong","a resource name of %zu characters was accepted",uri.size()); check_balance("a refused u_pwd_init","C20"); p=NULL; }
  for(int tries=0;;tries++){ u64 h0=hard_faults(); int rc; if(tries||draw(4)) rc=init(NULL); else rc=LIBCALL(init(NULL)); if(rc==0) break; CHECKP("C09",hard_faults()>h0,"init","initialisation failed although memory was available"); check_balance("a failed u_pwd_init","C20"); p=NULL; } CHECKP("C09",!!u_pwd_in_memory(p)==mem,"in-memory","u_pwd_in_memory is wrong");
  trace("op init %s, %s mode%s",file?"file":"custom backend",mem?"in-memory":"direct",hashed?", hashed":"");
  std::set<u64> stamps; auto publish=[&](){ Ver v; if(draw(12)==11&&!vers.empty()) v.gone=true; std::string t; if(!v.gone){ size_t n=0; std::vector<std::string> lines; while(n<8&&more(4)){ Span sp; n++; int k=draw(14); Rec r; r.user=UN[draw(8)]; r.pass=word(); r.opaque=word(); r.hasop=draw(2); std::string pw=hashed?pwhash(r.pass):r.pass; std::string l;
        if(k==9) { lines.push_back("# "+r.user+":"+r.pass); continue; } if(k==10){ static const char*bad[]={"","justaname","nopass:","::",":pw:op"," "}; lines.push_back(bad[draw(6)]); continue; }
        if(k==11){ lines.push_back(r.user+"::"+r.opaque); continue; /* no password: nobody can authenticate */ }
        if(k==12){ r.opaque=std::string(200+draw(400),'o'); r.hasop=true; int at=draw(3); std::string tail=UN[draw(8)]; if(at) r.opaque+=std::string(draw(30),'p')+tail+":sneaky"; if(r.user.size()+pw.size()+2+r.opaque.size()>=255){ size_t w=255-(r.user.size()+pw.size()+2); if(draw(2)&&w<r.opaque.size()) r.opaque=r.opaque.substr(0,w)+tail+":sneaky:op"; { std::string ol=r.user+":"+pw+":"+r.opaque; if(ol.size()==255) ol+="o"; lines.push_back(ol); } probe("overlong-line"); continue; /* beyond U_PWD_LINE_MAX: not a record, nor are its pieces */ } }
        l=r.user+":"+pw+(r.hasop?":"+r.opaque:draw(6)==5?":":""); if(k==12&&r.opaque.find(':')!=std::string::npos) r.opaque=r.opaque.substr(0,r.opaque.find(':')); if(r.hasop&&l.size()<200&&draw(8)==7) l+=":extra"; lines.push_back(l); if(r.user[0]!='#') v.recs.push_back(r); }
      for(size_t i=0;i<lines.size();i++) t+=lines[i]+"\n"; if(!t.empty()&&draw(3)==2){ t.pop_back(); } }
    advance(1000000ull*(1+draw(5))); u64 stamp=now_us()/1000000; if(draw(5)==4) stamp-=1+draw(100000); /* the clock was set back, or an older file was put in place */ while(!stamps.insert(stamp).second) stamp++; if(file){ if(v.gone) fs_rm(PATH); else { fs_put(PATH,t); fs_touch(PATH,stamp); } } cdata=t; cgone=v.gone; cver=stamp; vers.push_back(v); trace("op database now has %zu record(s)%s: %s",v.recs.size(),v.gone?" (gone)":"",q(t,200).c_str()); };
  publish(); size_t nops=0;
  while(nops<20&&more(8)){ Span sp; nops++; if(draw(4)==3){ publish(); continue; }
    size_t cur=vers.size()-1; const Ver&cv=vers[cur]; std::string user=UN[draw(8)]; if(draw(10)==9){ static const char*odd[]={"","nobody","jake:joliet","jake:","#","jak"}; user=odd[draw(6)]; } std::vector<const Rec*> mine; for(auto&r:cv.recs) if(r.user==user) mine.push_back(&r);
    if(draw(8)==7&&!cv.recs.empty()){ auto&r=cv.recs[draw(cv.recs.size())]; user=r.user+":"+r.pass; mine.clear(); } // not a user name
    std::string pw=!mine.empty()&&draw(3)?mine[draw(mine.size())]->pass:draw(4)==0?"sneaky":draw(4)==0?std::string(""):word(); if(draw(16)==15&&!mine.empty()) pw=mine[0]->opaque; if(draw(16)==15&&hashed&&!mine.empty()) pw=pwhash(mine[0]->pass); if(draw(24)==23) pw=std::string(300,'z');
    bool auth=draw(2); u64 h0=hard_faults(); u_pwd_rec_t*rec=NULL; int rc=auth?LIBCALL(u_pwd_auth_user(p,user.c_str(),pw.c_str())):LIBCALL(u_pwd_retr(p,user.c_str(),&rec)); bool err=hard_faults()>h0;
    CHECKP("C09",!badload,"backend-use","the load callback was used on a handle that is not open");
    trace("op %s(%s%s%s)=%d%s",auth?"auth":"retr",q(user).c_str(),auth?", ":"",auth?q(pw).c_str():"",rc,err?" (fault)":"");
    // which versions may have answered?
    if(!mem){ poss.clear(); if(!cv.gone) poss.insert(cur); }
    else if(cv.gone&&file){} // stat fails: the old snapshot stays
    else if(cv.gone){}       // open fails: the old snapshot stays
    else if(!notify&&!file){ /* no change notification: nothing is ever loaded */ }
    else if(!err) { poss.clear(); poss.insert(cur); } else poss.insert(cur);
    std::string ru,rp,ro; bool hop=false; if(rc==0&&!auth){ CHECKP("C09",rec!=NULL,"no-record","u_pwd_retr reported success without a record"); ru=S_(u_pwd_rec_get_user(rec)); rp=S_(u_pwd_rec_get_password(rec)); hop=u_pwd_rec_get_opaque(rec)!=NULL; ro=hop?u_pwd_rec_get_opaque(rec):""; CHECKP("C09",ru==user,"wrong-record","u_pwd_retr(%s) returned the record of %s",q(user).c_str(),q(ru).c_str()); LIBVOID(u_pwd_rec_free(p,rec)); }
    bool yes=false, no=poss.empty(); for(size_t v:poss){ if(v==~(size_t)0){ no=true; continue; } bool has=false, match=false, other=false; for(auto&r:vers[v].recs) if(r.user==user){ has=true; bool m=auth?r.pass==pw||(hashed&&pwhash(r.pass)==pwhash(pw)):(rp==(hashed?pwhash(r.pass):r.pass)&&hop==r.hasop&&(!hop||ro==r.opaque)); if(m) match=true; else other=true; } if(match) yes=true; if(auth?(!has||other):!has) no=true; }
    std::string vs; for(size_t v:poss) vs+=v==~(size_t)0?"none ":std::to_string(v)+" ";
    if(rc==0) CHECKP("C09",yes,auth?"false-authentication":"bogus-record","%s succeeded for user %s%s, but no snapshot the database can be in (version(s) %sof %zu) %s",auth?"authentication":"retrieval",q(user).c_str(),auth?(" with password "+q(pw)).c_str():(" (password "+q(rp)+", opaque "+(hop?q(ro):"none")+")").c_str(),vs.c_str(),vers.size(),auth?"has the user with that password":"has that record");
    else CHECKP("C09",no||err,"false-denial","%s failed for user %s although nothing went wrong in this query and the database (version(s) %sof %zu) holds %s",auth?"authentication":"retrieval",q(user).c_str(),vs.c_str(),vers.size(),auth?"the user with that password":"the user");
    if(err) probe("query-with-fault"); if(poss.size()>1) probe("stale-or-new"); 
    if(doclose&&!file) CHECKP("C20",opens==closes,"backend-leak","the backend was opened %d times and closed %d times",opens,closes); }
  LIBVOID(u_pwd_term(p)); for(auto h:hs) delete h; hs.clear(); check_balance("password database");
}
static Reg r1("pwd",{"C09"},scen_pwd,1);

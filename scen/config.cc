// Configuration: load faithfulness (C07), tree behaviour and save/load round trips (C08)
#include "common.h"

namespace {
struct N { std::string key; bool hasv=false; std::string v; std::vector<N*> ch; N*par=NULL; u_config_t*h=NULL; ~N(){ for(auto c:ch) delete c; } };
N*find(N*n,const std::string&k,int nth=0){ for(auto c:n->ch) if(c->key==k&&nth--==0) return c; return NULL; }
N*lookup(N*n,const std::string&path){ size_t d; std::string p=path; while((d=p.find('.'))!=std::string::npos){ n=find(n,p.substr(0,d)); if(!n) return NULL; p=p.substr(d+1); } return find(n,p); }
N*rootof(N*n){ while(n->par) n=n->par; return n; }
N*addc(N*n,const std::string&k){ N*c=new N; c->key=k; c->par=n; n->ch.push_back(c); return c; }
std::string trim(const std::string&s){ size_t a=0,b=s.size(); while(a<b&&(s[a]==' '||s[a]=='\t')) a++; while(b>a&&(s[b-1]==' '||s[b-1]=='\t')) b--; return s.substr(a,b-a); }
// a value: literal pieces and ${variable} references
struct Piece { bool var; std::string s; };
typedef std::vector<Piece> Val;
std::string subst(N*self,const Val&v){ std::string o; for(auto&p:v){ if(!p.var){ o+=p.s; continue; } N*r=NULL; if(self->par) r=lookup(self->par,p.s); if(!r) r=lookup(rootof(self),p.s); if(r&&r->hasv) o+=r->v; } return trim(o); }
N*setkey(N*n,const std::string&path,const Val*v,bool ow){ size_t d; std::string p=path; while((d=p.find('.'))!=std::string::npos){ std::string f=p.substr(0,d); N*c=find(n,f); if(!c) c=addc(n,f); n=c; p=p.substr(d+1); } N*c=find(n,p); if(!c||!ow) c=addc(n,p); if(v){ c->v=subst(c,*v); c->hasv=true; } else { c->hasv=false; c->v.clear(); } return c; }

const char*SK[]={"s0","s1","net","log","s","s01","ne"}; const char*LK[]={"k0","k1","name","file","opt-x","K0","k","nam","k01"};
std::string path(int depth){ std::string p; int n=draw(3)==2?1+draw(depth):0; while(n-->0) p+=std::string(SK[draw(7)])+"."; return p+LK[draw(9)]; }
std::string lastof(const std::string&p){ size_t d=p.rfind('.'); return d==std::string::npos?p:p.substr(d+1); }
std::string lit(bool big){ static const char cs[]="abcXYZ0189 \t_-+*/=,.;:()[]\"'$%&@!?<>|~^`{}\\"; size_t n=big&&draw(6)==5?(draw(2)?1000+draw(60):logu(12)):1+draw(12); std::string s; for(size_t i=0;i<n;i++){ char c=n<30?cs[draw(sizeof cs-1)]:(i%7==6?' ':'a'+i%26); if(c=='{'&&s.size()&&s.back()=='$') c='x'; s+=c; } if(s.back()=='\\'||s.back()=='$') s+='.'; return s; }
Val value(const std::string&own,bool big,bool hash){ Val v; int n=1+(draw(4)==3?draw(3):0); for(int i=0;i<n;i++){ if(draw(5)==4){ std::string p; do p=draw(4)==3?"nothing":path(2); while(lastof(p)==lastof(own)); v.push_back({true,p}); } else if(hash&&draw(6)==5){ static const char*hs[]={"#","##","###","#.","# ","#a#"," #"}; v.push_back({false,draw(2)?"#"+std::to_string(draw(10)):std::string(hs[draw(7)])}); } else v.push_back({false,lit(big)}); } if(v[0].var==false&&trim(v[0].s).empty()) v[0].s="v"; return v; }
std::string render(const Val&v){ std::string o; for(auto&p:v){ if(p.var){ o+="${"+p.s+"}"; continue; } for(char c:p.s){ if(c=='#') o+='\\'; o+=c; } } return o; }
std::string apival(const Val&v){ std::string o; for(auto&p:v) o+=p.var?"${"+p.s+"}":p.s; return o; }

struct Stmt { int k; /*0 kv 1 section 2 include 3 -include 4 bad line*/ std::string key; Val v; std::vector<Stmt> body; };
std::map<std::string,std::vector<Stmt>> fileset; int nfiles; bool opt_present; int bad_kind; // 0 none
std::vector<Stmt> gen(int depth,int inc){ std::vector<Stmt> o; size_t n=0; while(n<6&&more(3)){ Span sp; n++; Stmt s; int k=draw(8);
    if(k<5||depth>=3){ s.k=0; s.key=path(2); s.v=value(s.key,true,true); }
    else if(k<7){ s.k=1; s.key=SK[draw(7)]; s.body=gen(depth+1,inc); }
    else if(inc<2&&!fileset.empty()&&draw(3)==2){ s.k=draw(4)==3?3:2; auto i=fileset.begin(); std::advance(i,draw(fileset.size())); s.key=i->first; if(s.k==3) opt_present=true; probe("file-reused"); }
    else if(inc<2){ s.k=draw(4)==3?3:2; s.key="/etc/inc"+std::to_string(nfiles++); if(s.k==3&&draw(2)) fileset.count(s.key); else { auto b=gen(depth,inc+1); fileset[s.key]=b; if(s.k==3) opt_present=true; } }
    else { s.k=0; s.key=path(1); s.v=value(s.key,false,false); }
    o.push_back(s); } return o; }
const char*ws(){ static const char*w[]={" ","\t","  ","\t \t","    "}; return w[draw(5)]; }
void noise(std::string&t){ if(draw(5)!=4) return; switch(draw(4)){ case 0: t+="\n"; break; case 1: t+="# comment with { } ${x} and \\ in it\n"; break; case 2: t+=" \t \n"; break; default: t+="#"+std::string(logu(12),'c')+"\n"; } }
std::string eol(){ return draw(30)==29?"\r\n":"\n"; }
void emit(const std::vector<Stmt>&b,std::string&t,int lev){ for(auto&s:b){ noise(t); std::string in(draw(3)?lev:draw(3),'\t'); 
    if(s.k==0) t+=in+s.key+ws()+render(s.v)+(draw(5)==4?(s.v.back().var||draw(2)?" # why\\not":"# why\\not # even so"):"")+(draw(8)==7?"  ":"")+eol();
    else if(s.k==1){ t+=in+s.key+(draw(4)==3?" # section":"")+eol(); noise(t); t+=in+"{"+(draw(6)==5?" \t":"")+eol(); emit(s.body,t,lev+1); t+=in+"}"+(draw(6)==5?"  # end":"")+eol(); }
    else if(s.k==4) t+=s.key+"\n";
    else t+=in+(s.k==3?"-include":"include")+ws()+s.key+eol(); } }
std::set<std::pair<N*,std::string>> incdone; bool twice; // including a file twice into one section: refused or not, unspecified
bool evalb(const std::vector<Stmt>&b,N*n,bool ow,int fd){ for(auto&s:b){ if(s.k==2||s.k==3) if(fd&&!incdone.insert({n,s.key}).second) twice=true; if(s.k==0) setkey(n,s.key,&s.v,ow); else if(s.k==1){ N*c=ow?find(n,s.key):NULL; if(!c) c=addc(n,s.key); if(!evalb(s.body,c,ow,fd)) return false; } else if(s.k==4) return false; else { if(!fd){ if(s.k==2) return false; continue; } auto i=fileset.find(s.key); if(i==fileset.end()){ if(s.k==2) return false; continue; } if(!evalb(i->second,n,ow,fd)) return false; } } return true; }
bool isinc(const char*k){ return k&&(!strcmp(k,"include")||!strcmp(k,"-include")); }
// compare (and bind handles); returns a description of the first difference
std::string diff(N*n,u_config_t*c,const std::string&at){ n->h=c; size_t j=0; 
  for(int i=0;;i++){ u_config_t*x=u_config_get_child_n(c,NULL,i); if(!x) break; const char*k=u_config_get_key(x); if(isinc(k)) continue; if(!k) return at+": a child without a key"; if(j>=n->ch.size()) return at+": unexpected "+q(k)+" = "+q(S_(u_config_get_value(x))); N*m=n->ch[j++]; if(m->key!=k) return at+": child "+std::to_string(j-1)+" is "+q(k)+", should be "+q(m->key); const char*v=u_config_get_value(x); if(!!v!=m->hasv||(v&&m->v!=v)) return at+"."+k+": value "+(v?q(v):"none")+(v?" ("+std::to_string(strlen(v))+" chars)":"")+", should be "+(m->hasv?q(m->v)+" ("+std::to_string(m->v.size())+" chars)":"none"); std::string d=diff(m,x,at+"."+k); if(!d.empty()) return d; }
  if(j<n->ch.size()) return at+": "+q(n->ch[j]->key)+" is missing ("+std::to_string(j)+" of "+std::to_string(n->ch.size())+" children)"; return ""; }

// scripted driver
struct Src { std::string d; size_t p=0; bool open=true; };
std::map<void*,Src*> srcs; int opened, closed; bool drvbad, gotnull;
int d_open(const char*uri,void**pa){ if(fault(F_CALLBACK)){ trace("  driver: open(%s) fails",uri); return ~0; } if(!fs_exists(uri)){ trace("  driver: open(%s): no such resource",uri); return ~0; } Src*s=new Src; s->d=fs_data(uri); srcs[s]=s; *pa=s; opened++; trace("  driver: open(%s)",uri); return 0; }
int d_close(void*a){ auto i=srcs.find(a); if(i==srcs.end()) fail("C07","driver-close","the driver's close callback was called on something it never opened"); if(!i->second->open) fail("C20","driver-double-close","the driver's close callback was called twice on one resource"); i->second->open=false; closed++; if(fault(F_CALLBACK)){ trace("  driver: close fails"); return ~0; } return 0; }
char*d_gets(void*a,char*b,size_t n){ auto i=srcs.find(a); if(i==srcs.end()||!i->second->open){ drvbad=true; return NULL; } Src*s=i->second; if(n<2||s->p>=s->d.size()) return NULL; size_t k=s->d.find('\n',s->p); k=k==std::string::npos?s->d.size():k+1; k=std::min(k-s->p,n-1); memcpy(b,s->d.data()+s->p,k); b[k]=0; s->p+=k; return b; }
int d_resolv(const char*name,char*uri,size_t n){ if(fault(F_CALLBACK)){ trace("  driver: resolv fails"); return ~0; } std::string u=name; if(u.compare(0,4,"rel:")==0) u="/etc/"+u.substr(4); snprintf(uri,n,"%s",u.c_str()); return 0; }
void drop_srcs(){ for(auto&e:srcs) delete e.second; srcs.clear(); }
}

static void scen_load(){
  drop_srcs(); opened=closed=0; drvbad=false; fileset.clear(); nfiles=0; opt_present=false; fs_mkdir("/etc"); 
  auto body=gen(0,0); bool bad=draw(6)==5; const char*bads[]={"}",draw(4)?"{\n}":"{","{ x\n}","zs\n{\n} x","k ${unclosed","include","include /etc/missing","+{"}; bool unterminated=false;
  if(bad){ int w=draw(8); if(w==7) unterminated=true; std::vector<Stmt>*t=&body; while(draw(2)){ std::vector<std::vector<Stmt>*> sub; for(auto&s:*t){ if(s.k==1) sub.push_back(&s.body); else if(s.k==2&&fileset.count(s.key)) sub.push_back(&fileset[s.key]); } if(sub.empty()) break; t=sub[draw(sub.size())]; } 
    Stmt s; s.k=4; s.key=w==7?"sx\n{\n k0 v":bads[w]; if(w==0){ t=&body; if(draw(2)){ std::vector<std::string> fs; for(auto&f:fileset) fs.push_back(f.first); std::vector<std::string> used; for(auto&x:body) if(x.k==2) used.push_back(x.key); if(!used.empty()) t=&fileset[used[draw(used.size())]]; } }
    if(w==7) t->push_back(s); else t->insert(t->begin()+draw(t->size()+1),s);  }
  (void)unterminated; // an unterminated section swallows what follows, so it is never closed: still malformed
  std::string text; bool nonl=draw(3)==2; emit(body,text,0); if(nonl&&!text.empty()) { text.pop_back(); if(!text.empty()&&text.back()=='\r') text.pop_back(); }
  for(auto&f:fileset){ std::string t; emit(f.second,t,0); if(draw(3)==2&&!t.empty()) t.pop_back(); fs_put(f.first,t); }
  // no text at all: bytes that are not characters; whatever is made of them, nothing may be corrupted
  bool garbled=draw(50)==49; auto garble=[&](std::string&x){ for(int k=1+draw(4);k>0;k--){ size_t at=draw(4)?(x.find('\n',draw(x.size()+1))):draw(x.size()+1); if(at>=x.size()) at=x.size(); else if(at<x.size()&&x[at]=='\n') at++; x.insert(at,draw(2)?std::string(1+draw(3),0):rbytes(1+draw(6),1)); } };
  if(garbled){ garble(text); for(auto&f:fileset) if(draw(2)){ std::string x=fs_data(f.first); garble(x); fs_put(f.first,x); } probe("garbled"); }
  fs_put("/etc/main",text); bool ow=draw(2); int how=draw(6); bool incok=how!=3&&how!=4; N model; incdone.clear(); twice=false; bool wf=evalb(body,&model,how==0?false:how==4?false:ow,incok);
  trace("op text %zu bytes, %zu include file(s), %s%s: %s",text.size(),fileset.size(),wf?"well-formed":"malformed",nonl?", no final newline":"",q(text,200).c_str());
  if(text.size()>1500) probe("long-lines"); baseline();
  u_config_t*c=NULL; int rc; u64 h0=hard_faults(); size_t extfd=0; int fd=-1; const char*nm[]={"u_config_load_from_file","u_config_load(file)","u_config_load(stream)","u_config_load_from","u_config_load_from_buf","u_config_load_from_drv"};
  u_config_driver_t drv={d_open,d_close,d_gets,draw(2)?d_resolv:NULL}; bool noclose=draw(20)==19; if(noclose) drv.close=NULL;
  if(how==0) rc=LIBCALL(u_config_load_from_file("/etc/main",&c));
  else if(how==1||how==2){ if(how==1) fd=fd_open_file("/etc/main",O_RDONLY); else { int ee=draw(8)==7?EIO:0; if(ee) extfd=1; fd=fd_stream_in(text,ee); } { NoFault nf; if(u_config_create(&c)) end_run(); } h0=hard_faults(); rc=LIBCALL(u_config_load(c,fd,ow)); CHECKP("C07,C20",fd_is_open(fd),"load-closed-fd","u_config_load closed the caller's descriptor"); fd_close(fd); }
  else if(how==3){ { NoFault nf; if(u_config_create(&c)) end_run(); } Src*s=new Src; s->d=text; srcs[s]=s; rc=LIBCALL(u_config_load_from(c,d_gets,s,ow)); CHECKP("C07",s->open,"driver-close","u_config_load_from closed the caller's source"); }
  else if(how==4){ char*b=(char*)malloc(text.size()+1); memcpy(b,text.data(),text.size()); int slack=draw(2); b[text.size()]=0; char*x=b; if(!slack){ x=(char*)malloc(text.size()?text.size():1); memcpy(x,text.data(),text.size()); } rc=LIBCALL(u_config_load_from_buf(x,text.size()+slack,&c)); if(x!=b) free(x); free(b); }
  else rc=LIBCALL(u_config_load_from_drv("/etc/main",&drv,ow,&c));
  (void)extfd; bool err=hard_faults()>h0; trace("op %s(overwrite %d)=%d%s",nm[how],ow,rc,err?" (fault)":"");
  CHECKP("C07",!drvbad,"driver-use","the driver's gets callback was used on a resource that is not open"); CHECKP("C07",closed==(noclose?0:opened),"driver-leak","the driver's open callback was called %d times, close %d times",opened,closed);
  if(garbled){ if(c&&rc==0){ char sb[600]; (void)LIBCALL(u_config_save_to_buf(c,sb,sizeof sb)); } }
  else if(twice) probe("included-twice"); if(garbled){} else if(rc==0){ CHECKP("C07",wf,"load-malformed","%s accepted a malformed text",nm[how]); if(!(opt_present&&err)){ std::string d=diff(&model,c,""); CHECKP("C07",d.empty(),"load-unfaithful","%s reported success, but %s",nm[how],d.c_str()); } if(err) probe("load-survived-fault"); std::vector<N*> ns; std::function<void(N*,std::string)> rec=[&](N*n,std::string at){ for(auto x:n->ch){ std::string k=at+x->key; N*e=lookup(&model,k); u_config_t*g=NULL; NoFault nf; int r2=LIBCALL(u_config_get_subkey(c,k.c_str(),&g)); const char*v=LIBCALL(u_config_get_subkey_value(c,k.c_str())); if(!(opt_present&&err)) CHECKP("C07",e?r2==0&&g==e->h&&!!v==e->hasv&&(!v||e->v==v):r2!=0&&!v,"load-lookup","after loading, looking up %s gives %s instead of %s",k.c_str(),v?q(v).c_str():"nothing",!e?"nothing":e->hasv?q(e->v).c_str():"a section"); rec(x,k+"."); } }; rec(&model,""); }
  else { CHECKP("C07",err||!wf,"load-refused","%s failed on a well-formed text although nothing went wrong",nm[how]); if(how==0||how>=4) CHECKP("C07",c==NULL,"load-leftover","a failed %s handed out an object",nm[how]); }
  if(c) LIBVOID(u_config_free(c)); drop_srcs(); check_balance("loading a configuration","C07");
}
// nesting: deep sections, deep keys, files that include themselves
static void scen_deep(){
  drop_srcs(); opened=closed=0; drvbad=false; fs_mkdir("/etc"); baseline(); u_config_t*c=NULL; int rc=0; const size_t MAXD=U_CONFIG_MAX_DEPTH; bool ow=draw(2); u_config_driver_t drv={d_open,d_close,d_gets,NULL}; auto chain=[&](size_t n,const char*v){ NoFault nf; u_config_t*x=c; for(size_t i=0;i<n;i++){ u_config_t*y=u_config_get_child_n(x,NULL,0); CHECKP("C07,C08",y&&!u_config_get_child_n(x,NULL,1)&&S_(u_config_get_key(y))=="a","deep-tree","level %zu of %zu is wrong",i,n); x=y; } CHECKP("C07,C08",!u_config_has_children(x)&&(!v||S_(u_config_get_value(x))==v),"deep-tree","the innermost node is wrong"); };
  size_t n=draw(3)==2?MAXD*2+draw(3000):draw(3)?MAXD-3+draw(7):1+draw(40); int kind=draw(4); u64 h0=hard_faults();
  if(kind==0){ std::string t; for(size_t i=0;i<n;i++) t+="a\n{\n"; for(size_t i=0;i<n;i++) t+="}\n"; rc=LIBCALL(u_config_load_from_buf((char*)t.c_str(),t.size()+1,&c)); bool e=hard_faults()>h0; trace("op load %zu nested sections=%d",n,rc); if(rc==0){ CHECKP("C07",n<=MAXD,"deep-accepted","%zu nested sections were accepted, the limit is %zu",n,MAXD); chain(n,NULL); } else CHECKP("C07",e||n>MAXD,"load-refused","%zu nested sections were refused although nothing went wrong",n); }
  else if(kind==1){ std::string k; for(size_t i=0;i<n;i++) k+=i?".a":"a"; std::string t=k+" v\n"; rc=LIBCALL(u_config_load_from_buf((char*)t.c_str(),t.size()+1,&c)); bool e=hard_faults()>h0; trace("op load a key of %zu parts=%d",n,rc); if(rc==0){ CHECKP("C07",n<=MAXD,"deep-accepted","a key of %zu parts was accepted, the limit is %zu",n,MAXD); chain(n,"v"); } else CHECKP("C07",e||n>MAXD,"load-refused","a key of %zu parts was refused although nothing went wrong",n); }
  else if(kind==2){ { NoFault nf; if(u_config_create(&c)) end_run(); } std::string k; for(size_t i=0;i<n;i++) k+=i?".a":"a"; h0=hard_faults(); rc=ow?LIBCALL(u_config_set_key(c,k.c_str(),"v")):LIBCALL(u_config_add_key(c,k.c_str(),"v")); bool e=hard_faults()>h0; trace("op set a key of %zu parts=%d",n,rc); if(rc==0){ CHECKP("C08",n<=MAXD,"deep-accepted","a key of %zu parts was accepted, the limit is %zu",n,MAXD); chain(n,"v"); } else { CHECKP("C08",e||n>MAXD,"edit-refused","a key of %zu parts was refused although nothing went wrong",n); CHECKP("C08",!u_config_has_children(c),"edit-not-atomic","a refused key left something in the tree"); } }
  else { int nf=1+draw(3); bool opt=false, any=draw(2); int to=draw(nf); for(int i=0;i<nf;i++){ std::string t,tail; for(int l=draw(3);l>0;l--){ std::string s=SK[draw(7)]; if(draw(2)) t+="k"+std::to_string(draw(3))+" v\n"; t+=s+"\n{\n"; tail+="}\n"; } bool o=any&&draw(3)==2; opt|=o; t+=std::string(o?"-":"")+"include "+"/etc/c"+std::to_string(i+1<nf?i+1:to)+"\n"+tail+(draw(2)?"z 1\n":""); fs_put("/etc/c"+std::to_string(i),t); trace("file /etc/c%d: %s",i,q(t,200).c_str()); }
    int how=draw(3); h0=hard_faults(); if(how==0) rc=LIBCALL(u_config_load_from_file("/etc/c0",&c)); else if(how==1) rc=LIBCALL(u_config_load_from_drv("/etc/c0",&drv,ow,&c)); else { int fd=fd_open_file("/etc/c0",O_RDONLY); { NoFault nf2; if(u_config_create(&c)) end_run(); } rc=LIBCALL(u_config_load(c,fd,ow)); CHECKP("C07,C20",fd_is_open(fd),"load-closed-fd","u_config_load closed the caller's descriptor"); fd_close(fd); }
    trace("op load files that include each other=%d",rc); if(rc==0) CHECKP("C07",opt,"circular-include","files that include each other were loaded successfully"); CHECKP("C07",opened==closed,"driver-leak","the driver's open callback was called %d times, close %d times",opened,closed); probe("circular-include"); }
  if(c) LIBVOID(u_config_free(c)); drop_srcs(); check_balance("deep configurations","C07");
}
static Reg r0("config-deep",{"C07","C08"},scen_deep,1);
static Reg r1("config-load",{"C07"},scen_load,1);

// ------------------------------------------------------------------ tree operations
namespace {
int cmp_key(u_config_t**a,u_config_t**b){ return strcmp(u_config_get_key(*a),u_config_get_key(*b)); }
int cmp_val(u_config_t**a,u_config_t**b){ const char*x=u_config_get_value(*a),*y=u_config_get_value(*b); return strcmp(x?x:"",y?y:""); }
void all(N*n,std::vector<N*>&o){ o.push_back(n); for(auto c:n->ch) all(c,o); }
std::vector<u_config_t*> walked; void cb_walk(u_config_t*c){ walked.push_back(c); }
void order(N*n,bool pre,std::vector<u_config_t*>&o){ for(auto c:n->ch){ if(pre) o.push_back(c->h); order(c,pre,o); if(!pre) o.push_back(c->h); } }
bool expressible(N*n){ for(auto c:n->ch){ if(c->ch.empty()){ if(!c->hasv||c->v.empty()) return false; } else if(c->hasv) return false; if(!expressible(c)) return false; } return true; }
N*clone(N*n,N*par){ N*c=new N; c->key=n->key; c->hasv=n->hasv; c->v=n->v; c->par=par; c->h=n->h; for(auto x:n->ch) c->ch.push_back(clone(x,c)); return c; }
std::string keyp(N*n){ return draw(2)?std::string(LK[draw(9)]):std::string(SK[draw(7)]); }
}
static void scen_tree(){
  fs_mkdir("/etc"); baseline(); u_config_t*c=NULL; { NoFault nf; if(u_config_create(&c)) end_run(); } N*root=new N; struct D{N*&n; ~D(){ delete n; }} guard{root}; root->h=c;
  size_t nops=0; while(nops<25&&more(10)){ Span sp; nops++; std::vector<N*> ns; all(root,ns); N*n=ns[draw(3)?0:draw(ns.size())]; u64 h0=hard_faults(); int op=draw(14); N*want=clone(root,NULL); struct DW{N*&n; ~DW(){ delete n; }} dw{want}; std::vector<N*> ws2; all(want,ws2); N*wn=NULL; for(size_t i=0;i<ns.size();i++) if(ns[i]==n) wn=ws2[i];
    int rc=0; bool mutating=true;
    if(op<=3){ bool ow=draw(2); std::string k=path(2); Val v=value(k,false,true); bool null=draw(12)==11; setkey(wn,k,null?NULL:&v,ow); std::string av=apival(v); rc=ow?LIBCALL(u_config_set_key(n->h,k.c_str(),null?NULL:av.c_str())):LIBCALL(u_config_add_key(n->h,k.c_str(),null?NULL:av.c_str())); trace("op %s_key(%s, %s)=%d",ow?"set":"add",k.c_str(),null?"none":q(av).c_str(),rc); }
    else if(op==4){ std::string k=n->key.empty()?"zz":n->key; Val v=value(k,false,true); int how=n->par?draw(6):draw(3); std::string av=apival(v); if(how==5){ if(n->hasv){ rc=LIBCALL(u_config_set_value(n->h,u_config_get_value(n->h))); trace("op set_value(itself)=%d",rc); } } else if(how==4){ wn->hasv=false; wn->v.clear(); rc=LIBCALL(u_config_set_value(n->h,NULL)); trace("op set_value(none)=%d",rc); } else { wn->v=subst(wn,v); wn->hasv=true; rc=LIBCALL(u_config_set_value(n->h,av.c_str())); trace("op set_value(%s)=%d",q(av).c_str(),rc); CHECKP("C08",rc||S_(u_config_get_value(n->h))==wn->v,"set-value","the value is %s, should be %s",q(S_(u_config_get_value(n->h))).c_str(),q(wn->v).c_str()); } }
    else if(op==5){ u_config_t*x=NULL; std::string k=keyp(n); addc(wn,k); rc=LIBCALL(u_config_add_child(n->h,k.c_str(),&x)); trace("op add_child(%s)=%d",k.c_str(),rc); if(rc==0) CHECKP("C08",S_(u_config_get_key(x))==k&&!u_config_get_value(x)&&!u_config_has_children(x),"add-child","the new child is not an empty node with the given key"); }
    else if(op==6){ if(n->ch.empty()) { mutating=false; if(n->par){ N*o=ns[draw(ns.size())]; bool child=false; for(auto x:o->ch) if(x==n) child=true; if(!child){ rc=LIBCALL(u_config_del_child(o->h,n->h)); trace("op del_child(not a child)=%d",rc); CHECKP("C08",rc!=0,"del-child","removing a node from a parent it does not belong to reported success"); rc=0; } } } else { size_t i=draw(n->ch.size()); rc=LIBCALL(u_config_del_child(n->h,n->ch[i]->h)); trace("op del_child(%s)=%d",n->ch[i]->key.c_str(),rc); delete wn->ch[i]; wn->ch.erase(wn->ch.begin()+i); } }
    else if(op==7){ bool byk=draw(2); std::vector<u_config_t*> before; for(auto x:n->ch) before.push_back(x->h); rc=LIBCALL(u_config_sort_children(n->h,byk?cmp_key:cmp_val)); trace("op sort(%s)=%d",byk?"key":"value",rc); if(rc==0){ std::vector<u_config_t*> after; for(int i=0;;i++){ u_config_t*x=u_config_get_child_n(n->h,NULL,i); if(!x) break; after.push_back(x); } for(size_t i=1;i<after.size();i++) CHECKP("C08",(byk?cmp_key:cmp_val)(&after[i-1],&after[i])<=0,"sort","children %zu and %zu are out of order after sorting",i-1,i); auto b2=before,a2=after; std::sort(b2.begin(),b2.end()); std::sort(a2.begin(),a2.end()); CHECKP("C08",a2==b2,"sort","sorting changed the set of children"); std::vector<N*> nc; for(auto h:after) for(auto x:wn->ch) if(x->h==h) nc.push_back(x); wn->ch=nc; } }
    else if(op==8){ mutating=false; std::string k=keyp(n); int i=draw(3); bool any=draw(5)==4; u_config_t*x=LIBCALL(any?u_config_get_child_n(n->h,NULL,i):u_config_get_child_n(n->h,k.c_str(),i)); N*e=any?((size_t)i<n->ch.size()?n->ch[i]:NULL):find(n,k,i); CHECKP("C08",x==(e?e->h:NULL),"get-child","get_child_n(%s,%d) gave a wrong answer",any?"any":k.c_str(),i); if(i==0&&!any) CHECKP("C08",u_config_get_child(n->h,k.c_str())==x,"get-child","get_child and get_child_n(0) disagree"); CHECKP("C08",!!u_config_has_children(n->h)==!n->ch.empty(),"has-children","has_children is wrong"); }
    else if(op==9||op==10){ mutating=false; std::string k=path(2); N*e=lookup(n,k); int i=draw(3); N*en=NULL; { size_t d=k.rfind('.'); N*p=d==std::string::npos?n:lookup(n,k.substr(0,d)); if(p) en=find(p,lastof(k),i); } u_config_t*x=NULL; 
      int r=LIBCALL(u_config_get_subkey(n->h,k.c_str(),&x)); CHECKP("C08",e?(r==0&&x==e->h):r!=0,"get-subkey","get_subkey(%s) %s, but the tree %s it",k.c_str(),r?"found nothing":"found something",e?"has":"does not have"); 
      x=NULL; r=LIBCALL(u_config_get_subkey_nth(n->h,k.c_str(),i,&x)); CHECKP("C08",en?(r==0&&x==en->h):r!=0,"get-subkey-nth","get_subkey_nth(%s,%d) %s, the tree %s it",k.c_str(),i,r?"found nothing":x==(en?en->h:NULL)?"found the node":"found another node",en?"has":"does not have");
      const char*v=LIBCALL(u_config_get_subkey_value(n->h,k.c_str())); CHECKP("C08",e&&e->hasv?(v&&e->v==v):v==NULL,"get-value","get_subkey_value(%s) is %s",k.c_str(),q(S_(v)).c_str());
      int out=4711; r=LIBCALL(u_config_get_subkey_value_b(n->h,k.c_str(),7,&out)); int b=-1; if(e&&e->hasv){ for(auto w:{"yes","enable","1","on"}) if(!strcasecmp(w,e->v.c_str())) b=1; for(auto w:{"no","disable","0","off"}) if(!strcasecmp(w,e->v.c_str())) b=0; } else b=7; CHECKP("C08",b<0?r!=0:(r==0&&out==b),"get-bool","get_subkey_value_b(%s) = %d out %d for value %s",k.c_str(),r,out,e&&e->hasv?q(e->v).c_str():"none"); 
      if(!e||!e->hasv){ out=1; r=LIBCALL(u_config_get_subkey_value_i(n->h,k.c_str(),-5,&out)); CHECKP("C08",r==0&&out==-5,"get-int","get_subkey_value_i of a missing key is %d, out %d",r,out); } }
    else if(op==11){ mutating=false; std::string k=LK[draw(9)]; int num=(int)draw(100000)-50000; { NoFault nf; std::string s=draw(2)?std::to_string(num):(draw(2)?"YES":"off"); if(draw(2)==0) s=std::to_string(num); if(u_config_set_key(n->h,k.c_str(),s.c_str())==0){ Val v{{false,s}}; setkey(n,k,&v,true); int out=1; bool isn=s==std::to_string(num); int r=u_config_get_subkey_value_i(n->h,k.c_str(),9,&out); CHECKP("C08",isn?(r==0&&out==num):r!=0,"get-int","get_subkey_value_i of %s returned %d, out %d",q(s).c_str(),r,out); if(!isn){ r=u_config_get_subkey_value_b(n->h,k.c_str(),9,&out); CHECKP("C08",r==0&&out==(s=="YES"),"get-bool","get_subkey_value_b of %s returned %d, out %d",q(s).c_str(),r,out); } } } }
    else if(op==12){ mutating=false; bool pre=draw(2); walked.clear(); { std::vector<N*> vv; all(n,vv); for(auto x:vv) if(x!=n&&x->hasv&&!x->ch.empty()) { probe("walk-valued-section"); break; } } LIBVOID(u_config_walk(n->h,pre?U_CONFIG_WALK_PREORDER:U_CONFIG_WALK_POSTORDER,cb_walk)); std::vector<u_config_t*> o; order(n,pre,o); CHECKP("C08",o==walked,"walk","the %s-order walk visited %zu nodes, not the tree's %zu nodes in order",pre?"pre":"post",walked.size(),o.size()); }
    else { mutating=false; if(!expressible(root)) { probe("tree-not-expressible"); continue; } size_t cap=200000; char*b=(char*)malloc(cap); b[0]=0; int how=draw(4); bool ok=false; std::string txt; 
      if(how<2){ rc=LIBCALL(u_config_save_to_buf(c,b,cap)); bool err=hard_faults()>h0; CHECKP("C08",rc==0||err,"save-refused","u_config_save_to_buf failed although nothing went wrong"); ok=rc==0; if(ok){ txt=b; if(draw(2)){ size_t sz=draw(2)?txt.size()+1:draw(txt.size()+1); char*e=(char*)malloc(sz?sz:1); u64 h1=hard_faults(); int r=LIBCALL(u_config_save_to_buf(c,e,sz)); bool er=hard_faults()>h1; if(sz>txt.size()) CHECKP("C08",r?er:txt==e,"save-fit","u_config_save_to_buf into exactly enough room returned %d",r); else CHECKP("C08",r!=0,"save-short","u_config_save_to_buf reported success with %zu bytes of room for %zu",sz,txt.size()+1); free(e); } } }
      else if(how==3){ NoFault nf; size_t o0=stdout_text().size(); LIBVOID(u_config_print(c,0)); txt=stdout_text().substr(o0); ok=true; }
      else { NoFault nf; FILE*f=harness_fopen("/etc/dump","w"); u_config_print_to_fp(c,f,0); sim_fclose(f); txt=fs_data("/etc/dump"); ok=true; fs_rm("/etc/dump"); }
      if(ok){ u_config_t*d=NULL; u64 h1=hard_faults(); char*e=(char*)malloc(txt.size()+1); memcpy(e,txt.c_str(),txt.size()+1); int r=LIBCALL(u_config_load_from_buf(e,txt.size()+1,&d)); free(e); trace("op save and load back (%s, %zu bytes)=%d",how<2?"buffer":"stream",txt.size(),r); if(r) CHECKP("C08",hard_faults()>h1,"reload","a serialised tree can't be loaded back: %s",q(txt,200).c_str()); else { N*x=clone(root,NULL); std::string df=diff(x,d,""); delete x; CHECKP("C08",df.empty(),"round-trip","a tree saved and loaded back differs: %s",df.c_str()); LIBVOID(u_config_free(d)); probe("round-trip"); } } free(b); rc=0; }
    bool err=hard_faults()>h0; if(mutating){ if(rc) CHECKP("C08",err,"edit-refused","the operation failed although nothing went wrong"); if(rc==0) std::swap(root,want); }
    std::string d=diff(root,c,""); CHECKP("C08",d.empty(),rc?"edit-not-atomic":"tree","%s, the tree differs from the ordered tree of key/value nodes: %s",rc?"after an operation that failed":"after a successful operation",d.c_str()); }
  LIBVOID(u_config_free(c)); check_balance("configuration trees");
}
static Reg r2("config-tree",{"C08"},scen_tree,1);

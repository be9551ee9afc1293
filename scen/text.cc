// URI objects, lexers and token vectors (C23)
#include "common.h"
#include <cctype>
#define V(c,r,...) CHECKP("C23",c,r,__VA_ARGS__)
namespace {
typedef int (*setf)(u_uri_t*,const char*); typedef const char*(*getf)(u_uri_t*);
enum { SCHEME,USERINFO,USER,PWD,HOST,PORT,AUTH,PATH,QUERY,FRAG,NC };
const char*nm[NC]={"scheme","userinfo","user","pwd","host","port","authority","path","query","fragment"};
setf S[NC]={u_uri_set_scheme,u_uri_set_userinfo,u_uri_set_user,u_uri_set_pwd,u_uri_set_host,u_uri_set_port,u_uri_set_authority,u_uri_set_path,u_uri_set_query,u_uri_set_fragment};
getf G[NC]={u_uri_get_scheme,u_uri_get_userinfo,u_uri_get_user,u_uri_get_pwd,u_uri_get_host,u_uri_get_port,u_uri_get_authority,u_uri_get_path,u_uri_get_query,u_uri_get_fragment};
typedef std::vector<std::string> Rec;
std::string word(size_t n,const char*extra){ std::string o,al="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; std::string e=al.substr(0,52)+al+extra; std::string r=rbytes(n,1); for(size_t i=0;i<n;i++) o+=e[(u8)r[i]%e.size()]; return o; }
size_t wlen(){ switch(draw(8)){ case 7: return 100+draw(22); case 6: return 20+draw(60); default: return 1+draw(12); } }
std::string host(){ switch(draw(6)){ case 0: return "www.example.org"; case 1: return "10.1.2."+std::to_string(draw(256)); case 2: return draw(2)?"::1":"2001:db8::"+std::to_string(1+draw(99)); default: return word(1,"").substr(0,1)=="0"?"h":"h"+word(wlen()-1,"-._~!$&'()*+,;="); } }
std::string path(){ std::string p; int n=draw(4); for(int i=0;i<n;i++){ p+="/"; if(draw(6)) p+=word(draw(3)?1+draw(9):1+draw(30),"-._~!$&'()*+,;=:@"); if(draw(5)==4) p+="%4"+std::to_string(draw(10)); } return p.substr(0,120); }
std::string val(int c){ switch(c){ case SCHEME: return std::string(1,"abcxyzHT"[draw(8)])+word(wlen()-1,"+-."); case USERINFO: { std::string u=word(1+draw(40),"-._~!$&'()*+,;="); if(draw(3)) u+=":"+word(draw(40),"-._~!$&'()*+,;=:"); return u; } case USER: return word(wlen(),"-._~!$"); case PWD: return word(wlen(),"-._~!$"); case HOST: return host(); case PORT: return draw(2)?std::to_string(draw(65536)):word(1+draw(12),"_-"); case AUTH: return host(); case PATH: return path(); default: return word(wlen(),"-._~!$&'()*+,;=:@/?"); } }
std::string compose(const Rec&m,bool lit,bool&ok){ std::string s; ok=true; if(m[SCHEME].size()) s+=m[SCHEME]+":"; if(m[AUTH].size()) s+="//"+m[AUTH]; else { if(m[HOST].empty()) ok=false; s+="//"; if(m[USERINFO].size()) s+=m[USERINFO]+"@"; else if(m[USER].size()) s+=m[USER]+(m[PWD].size()?":"+m[PWD]:"")+"@"; bool b=lit||m[HOST].find(':')!=std::string::npos; s+=(b?"[":"")+m[HOST]+(b?"]":""); if(m[PORT].size()) s+=":"+m[PORT]; }
  if(m[PATH].size()&&m[PATH][0]!='/') s+="/"; s+=m[PATH]; if(m[QUERY].size()) s+="?"+m[QUERY]; if(m[FRAG].size()) s+="#"+m[FRAG]; return s; }
void compare(u_uri_t*u,const Rec&m,const char*w){ for(int i=0;i<NC;i++){ if(i==AUTH&&m[i]=="*") continue; V(S_(G[i](u))==m[i],"component","%s: %s is %s, expected %s",w,nm[i],q(S_(G[i](u))).c_str(),q(m[i]).c_str()); } }
}
static void scen_uri(){
  baseline(); struct O { u_uri_t*u; Rec m; bool lit; }; std::vector<O> L; int n=0;
  auto fresh=[&]{ u_uri_t*u=(u_uri_t*)0; u64 H=hard_faults(); int r=LIBCALL(u_uri_new(U_URI_OPT_NONE,&u)); trace("u_uri_new -> %d",r); V(!r||hard_faults()>H,"new","u_uri_new failed"); if(!r){ Rec m(NC); m[PATH]="/"; V(u,"new","u_uri_new gave nothing"); L.push_back({u,m,false}); compare(u,m,"u_uri_new"); } };
  // reading a string composed of known parts gives these parts
  auto parse=[&](const std::string&s,const Rec&m,u_uri_opts_t o,bool lit){ u_uri_t*u=(u_uri_t*)0; u64 H=hard_faults(); u64 mk=mem_mark(); int r=LIBCALL(u_uri_crumble(s.c_str(),o,&u)); trace("u_uri_crumble(%s,%d) -> %d",q(s,120).c_str(),(int)o,r); V(!r||hard_faults()>H,"parse-failed","u_uri_crumble refused %s",q(s,400).c_str()); if(r){ CHECKP("C23,C20",live_since(mk)==0,"leak","a failed u_uri_crumble left %zu block(s)",live_since(mk)); return; }
    if(hard_faults()>H) probe("parse-survived-fault"); Rec e=m; if(e[AUTH].size()==0) e[AUTH]="*"; compare(u,e,"u_uri_crumble"); bool ip=lit||(m[HOST].size()&&isdigit((u8)m[HOST][0])); int f=u_uri_get_flags(u); V(f==((ip?U_URI_FLAGS_HOST_IS_IPADDRESS:0)|(lit?U_URI_FLAGS_HOST_IS_IPLITERAL:0)),"flags","flags %d for host %s",f,q(m[HOST]).c_str()); e[AUTH]=S_(u_uri_get_authority(u)); L.push_back({u,e,lit}); };
  auto gen=[&](bool&lit,u_uri_opts_t&o){ Rec m(NC); m[SCHEME]=val(SCHEME); m[HOST]=host(); lit=m[HOST].find(':')!=std::string::npos; if(draw(2)) m[USERINFO]=val(USERINFO); o=draw(4)==3?U_URI_OPT_DONT_PARSE_USERINFO:U_URI_OPT_NONE; if(m[USERINFO].size()&&!(o&U_URI_OPT_DONT_PARSE_USERINFO)){ size_t k=m[USERINFO].find(':'); m[USER]=m[USERINFO].substr(0,k); if(k!=std::string::npos) m[PWD]=m[USERINFO].substr(k+1); } if(draw(2)) m[PORT]=val(PORT); m[PATH]=path(); if(m[USERINFO].empty()) {} if(draw(2)) m[QUERY]=val(QUERY); if(draw(2)) m[FRAG]=val(FRAG); 
    if(m[USERINFO].empty()) for(int i: {PATH,QUERY,FRAG}) for(char&c:m[i]) if(c=='@') c='a'; return m; };
  fresh(); while(n++<60&&more(16)){ Span sp; if(L.empty()){ fresh(); continue; } O&x=L[draw(L.size())];
    switch(draw(11)){
      case 8: { // no authority
        Rec m(NC); m[SCHEME]=val(SCHEME); auto seg=[&]{ return word(1+draw(20),"-._~!$&'()*+,;=:@"); }; if(draw(5)){ if(draw(2)) m[PATH]="/"; m[PATH]+=seg(); int n=draw(3); while(n--) m[PATH]+="/"+(draw(4)?seg():std::string()); } if(draw(2)) m[QUERY]=val(QUERY); if(draw(2)) m[FRAG]=val(FRAG); std::string s=m[SCHEME]+":"+m[PATH]; if(m[QUERY].size()) s+="?"+m[QUERY]; if(m[FRAG].size()) s+="#"+m[FRAG]; parse(s,m,U_URI_OPT_NONE,false); break; }
      case 9: { // any text: taken or refused, never a leak or a component beyond its cell
        bool lit; u_uri_opts_t o; Rec m=gen(lit,o); bool ok; std::string s=compose(m,lit,ok); int k=1+draw(4); while(k--&&!s.empty()){ size_t p=draw(s.size()); switch(draw(5)){ case 0: s.erase(p,1+draw(6)); break; case 1: s.insert(p,1,":/?#[]@%.1a \n"[draw(13)]); break; case 2: s[p]=(char)(1+draw(255)); break; case 3: s.insert(p,std::string(100+draw(60),"a1/"[draw(3)])); break; default: s.resize(p); } }
        u_uri_t*u=(u_uri_t*)&s; u64 H=hard_faults(), mk=mem_mark(); std::string mine=s; int r=LIBCALL(u_uri_crumble(mine.c_str(),o,&u)); trace("u_uri_crumble(%s) -> %d",q(s,150).c_str(),r); V(mine==s,"input","u_uri_crumble changed its input"); (void)H; if(r){ CHECKP("C23,C20",live_since(mk)==0,"leak","a failed u_uri_crumble left %zu block(s)",live_since(mk)); V(u==(u_uri_t*)&s,"refused","a failed u_uri_crumble hands out an object"); break; }
        for(int i=0;i<NC;i++){ std::string v=S_(G[i](u)); V(v.size()<128,"component","a %s of %zu bytes",nm[i],v.size()); V(i==PATH||s.find(v)!=std::string::npos,"component","the %s %s is not part of %s",nm[i],q(v).c_str(),q(s,200).c_str()); } if(draw(2)){ LIBVOID(u_uri_print(u,draw(2))); } LIBVOID(u_uri_free(u)); probe("uri-odd-text"); break; }
      case 0: case 1: case 2: case 3: { int c=draw(NC); bool big=draw(12)==11; std::string v=big?word(128+draw(60),""):draw(10)==9?std::string():val(c); if(c==HOST&&draw(3)==0) v=host(); std::string mine=v; int r=LIBCALL(S[c](x.u,mine.c_str())); mine.assign(mine.size(),'#'); trace("set_%s(%s) -> %d",nm[c],q(v).c_str(),r); V((r==0)==(v.size()<128),"set","u_uri_set_%s of %zu bytes returned %d",nm[c],v.size(),r); if(r){ V(!LIBCALL(S[c](x.u,"")),"set","u_uri_set_%s(\"\") failed",nm[c]); v=""; } x.m[c]=v; if(c==HOST) x.lit=false; compare(x.u,x.m,"set"); break; }
      case 4: case 5: { bool ok; std::string w=compose(x.m,x.lit,ok); char b[U_URI_STRMAX]; memset(b,'#',sizeof b); int r=LIBCALL(u_uri_knead(x.u,b)); trace("u_uri_knead -> %d",r); if(ok){ V(!r,"knead-failed","u_uri_knead failed, expected %s",q(w,300).c_str()); V(w==std::string(b,strnlen(b,sizeof b)),"knead","u_uri_knead gave %s, expected %s",q(std::string(b,strnlen(b,sizeof b)),300).c_str(),q(w,300).c_str()); } compare(x.u,x.m,"knead"); 
          if(ok&&!r&&x.m[SCHEME].size()&&x.m[AUTH].empty()&&x.m[HOST].size()&&x.m[PATH].substr(0,1)!="x") probe("uri-kneaded"); break; }
      case 6: { bool lit; u_uri_opts_t o; Rec m=gen(lit,o); bool ok; std::string s=compose(m,lit,ok); parse(s,m,o,lit); if(m[USERINFO].size()) probe("uri-with-userinfo"); break; }
      case 7: { bool lit; u_uri_opts_t o; Rec m=gen(lit,o); if(draw(2)) m[FRAG]=""; bool ok; std::string s=compose(m,lit,ok); u64 H=hard_faults(); int r=LIBCALL(u_uri_is_absolute(s.c_str())); trace("u_uri_is_absolute -> %d",r); V(hard_faults()>H||r==(m[FRAG].empty()?1:0),"absolute","u_uri_is_absolute(%s) = %d",q(s,300).c_str(),r); V(r==0||m[FRAG].empty(),"absolute","u_uri_is_absolute(%s) = %d",q(s,300).c_str(),r); break; }
      default: if(draw(2)) fresh(); else { size_t i=&x-&L[0]; trace("u_uri_free"); LIBVOID(u_uri_free(x.u)); L.erase(L.begin()+i); }
    } }
  for(auto&o:L){ compare(o.u,o.m,"end"); LIBVOID(u_uri_free(o.u)); } LIBVOID(u_uri_free(NULL)); check_balance("uri","","C23");
}
static void scen_strtok(){
  baseline(); int n=0; struct T { char**tv; size_t n; std::vector<std::string> w; }; std::vector<T> L;
  auto chk=[&](const T&t){ for(size_t i=0;i<t.n;i++) V(S_(t.tv[i])==t.w[i],"token","token %zu is %s, expected %s",i,q(S_(t.tv[i])).c_str(),q(t.w[i]).c_str()); };
  while(n++<12&&more(4)){ Span sp; std::string delim= draw(3)?std::string(1," ,;\t"[draw(4)]):" ,;"; if(draw(20)==19) delim=""; size_t k=draw(3)?draw(14):draw(3)?8+draw(30):draw(200); std::string s; for(size_t i=0;i<k;i++){ if(i||draw(4)==3) do s+=delim.size()?delim[draw(delim.size())]:'x'; while(draw(5)==4); s+=rbytes(1+draw(6),0); } if(draw(4)==3) s+=delim;
    std::vector<std::string> w; std::string c; for(size_t i=0;i<=s.size();i++){ if(i==s.size()||delim.find(s[i])!=std::string::npos){ if(c.size()) w.push_back(c); c=""; } else c+=s[i]; }
    if(draw(4)==3){ size_t cap=draw(3)?1+draw(w.size()+3):1+draw(3); char**v=(char**)malloc(cap*sizeof*v); std::vector<char> mine(s.begin(),s.end()); mine.push_back(0); char*in=(char*)malloc(mine.size()); memcpy(in,mine.data(),mine.size()); int r=LIBCALL(u_tokenize(in,delim.c_str(),v,cap)); trace("u_tokenize(%s,%s,%zu) -> %d",q(s,100).c_str(),q(delim).c_str(),cap,r); V(r==0,"tokenize","u_tokenize returned %d",r); size_t e=std::min(w.size(),cap-1); for(size_t i=0;i<e;i++) V(S_(v[i])==w[i]&&v[i],"tokenize","token %zu is %s, expected %s",i,q(S_(v[i])).c_str(),q(w[i]).c_str()); V(!v[e],"tokenize","%zu token(s) in %zu cells: the stopper is missing",w.size(),cap); if(w.size()>=cap) probe("tokenize-full"); free(v); free(in); continue; }
    char**tv=(char**)0; size_t ne=9999; u64 H=hard_faults(); u64 mk=mem_mark(); std::string mine=s; int r=LIBCALL(u_strtok(mine.c_str(),delim.c_str(),&tv,&ne)); trace("u_strtok(%s,%s) -> %d, %zu",q(s,100).c_str(),q(delim).c_str(),r,r?0:ne); V(mine==s,"input","u_strtok changed its input"); mine.assign(mine.size(),'#');
    V(!r||hard_faults()>H,"strtok-failed","u_strtok failed without a fault"); if(r){ CHECKP("C23,C20",live_since(mk)==0,"leak","failed u_strtok left %zu block(s)",live_since(mk)); continue; }
    V(ne==w.size(),"count","u_strtok found %zu tokens in %s, expected %zu",ne,q(s,200).c_str(),w.size()); T t{tv,ne,w}; chk(t); if(ne>10) probe("strtok-grown"); L.push_back(t);
    if(draw(2)){ size_t i=draw(L.size()); chk(L[i]); trace("cleanup"); LIBVOID(u_strtok_cleanup(L[i].tv,L[i].n)); L.erase(L.begin()+i); } }
  for(auto&t:L){ chk(t); LIBVOID(u_strtok_cleanup(t.tv,t.n)); } LIBVOID(u_strtok_cleanup(NULL,0)); check_balance("u_strtok","","C23");
}
static void scen_lexer(){
  baseline(); size_t len=draw(5)?draw(30):draw(300); std::string s; { std::string r=rbytes(len,1); for(u8 c:r) s+=" \t\nab{}:,x"[c%10]; } u_lexer_t*l=(u_lexer_t*)0; u64 H=hard_faults(); u64 mk=mem_mark(); std::string mine=s; int r=LIBCALL(u_lexer_new(mine.c_str(),&l)); trace("u_lexer_new(%s) -> %d",q(s,100).c_str(),r); V(!r||hard_faults()>H,"new","u_lexer_new failed"); if(r){ CHECKP("C23,C20",live_since(mk)==0,"leak","failed u_lexer_new left memory"); return; } mine.assign(mine.size(),'#');
  size_t pos=0,lm=0,rm=0; std::string err; int n=0; auto at=[&](size_t p){ return p<len?s[p]:'\0'; };
  while(n++<80&&more(20)){ Span sp; switch(draw(9)){
    case 0: case 1: case 2: { char c='#'; bool g=draw(2); r=LIBCALL(u_lexer_next(l,g?&c:NULL)); trace("next -> %d",r); if(pos>=len) V(r!=0,"next","u_lexer_next at the end returned %d",r); else { pos++; V(r==0,"next","u_lexer_next returned %d at %zu of %zu",r,pos,len); if(g) V(c==at(pos),"next","u_lexer_next gave '%c', expected '%c'",c,at(pos)); } break; }
    case 3: { char c='#'; bool g=draw(2); r=LIBCALL(u_lexer_skip(l,g?&c:NULL)); trace("skip -> %d",r); if(pos>=len) V(r!=0,"skip","u_lexer_skip at the end returned %d",r); else { pos++; bool e=pos>=len; while(pos<len&&isspace((u8)s[pos])) pos++; if(pos<len) V(r==0,"skip","u_lexer_skip returned %d at %zu",r,pos); if(e) V(r!=0,"skip","u_lexer_skip onto the end returned %d",r); if(g&&!r) V(c==at(pos),"skip","u_lexer_skip gave '%c', expected '%c'",c,at(pos)); } break; }
    case 4: { r=LIBCALL(u_lexer_eat_ws(l)); trace("eat_ws -> %d",r); bool e=pos>=len; while(pos<len&&isspace((u8)s[pos])) pos++; if(e) V(r!=0,"eat","u_lexer_eat_ws at the end returned %d",r); else if(pos<len) V(r==0,"eat","u_lexer_eat_ws returned %d",r); break; }
    case 6: { LIBVOID(u_lexer_record_rmatch(l)); rm=pos; trace("rmatch"); break; }
    case 5: { LIBVOID(u_lexer_record_lmatch(l)); lm=pos; trace("lmatch"); if(draw(3)) break; size_t k=draw(2)?draw(6):U_TOKEN_SZ-4+draw(7); trace("next x %zu",k); while(k--&&pos<len){ V(LIBCALL(u_lexer_next(l,NULL))==0,"next","u_lexer_next failed at %zu of %zu",pos,len); pos++; } if(pos>=len) break; LIBVOID(u_lexer_record_rmatch(l)); rm=pos; trace("rmatch"); } /* fall through */
    case 7: { char m[U_TOKEN_SZ]; char*p=LIBCALL(u_lexer_get_match(l,m)); bool ok=rm>=lm&&rm-lm+1<U_TOKEN_SZ; trace("match %zu..%zu -> %s",lm,rm,p?"yes":"no"); V((p!=NULL)==ok,"match","u_lexer_get_match of %zu..%zu gave %s",lm,rm,p?"a match":"NULL"); if(p){ std::string w=s.substr(lm,rm-lm+1); V(p==m&&S_(m)==w,"match","match is %s, expected %s",q(S_(m)).c_str(),q(w).c_str()); } break; }
    default: if(draw(2)){ char c=draw(2)?at(pos):"ab{}:"[draw(5)]; if(!c) break; r=LIBCALL(u_lexer_expect_char(l,c)); trace("expect '%c' -> %d",c,r); if(c==at(pos)){ V(r==0,"expect","u_lexer_expect_char refused '%c'",c); pos++; } else { V(r!=0,"expect","u_lexer_expect_char accepted '%c' for '%c'",at(pos),c); V(fired(F_VSNPRINTF)||S_(u_lexer_geterr(l)).size()>0,"expect","no error text"); } }
             else { std::string e=rbytes(draw(3)?draw(30):draw(700),0); LIBVOID(u_lexer_seterr(l,"%s",e.c_str())); err=e.substr(0,U_LEXER_ERR_SZ-1); trace("seterr"); V(fired(F_VSNPRINTF)||S_(u_lexer_geterr(l))==err,"err","error text is %s",q(S_(u_lexer_geterr(l))).c_str()); }
    }
    V(u_lexer_pos(l)==pos&&u_lexer_peek(l)==at(pos)&&(u_lexer_eot(l)!=0)==(pos>=len)&&S_(u_lexer_lookahead(l))==s.substr(pos),"position","lexer is at %zu ('%c'), expected %zu ('%c')",u_lexer_pos(l),u_lexer_peek(l),pos,at(pos));
  }
  LIBVOID(u_lexer_free(l)); check_balance("lexer","","C23");
}
static Reg r1("uri",{"C23"},scen_uri,2);
static Reg r2("strtok",{"C23"},scen_strtok,1);
static Reg r3("lexer",{"C23"},scen_lexer,1);

// JSON values against a plain tree of values (C17)
#include "common.h"
#include <u/toolbox/json.h>
#include <u/toolbox/lexer.h>
#include <climits>
#include <cmath>
#include <cctype>
namespace {
enum { UNK=U_JSON_TYPE_UNKNOWN, STR=U_JSON_TYPE_STRING, NUM=U_JSON_TYPE_NUMBER, OBJ=U_JSON_TYPE_OBJECT, ARR=U_JSON_TYPE_ARRAY, TRU=U_JSON_TYPE_TRUE, FAL=U_JSON_TYPE_FALSE, NUL=U_JSON_TYPE_NULL };
struct N { int t=UNK; std::string key,val; std::vector<N*> kids; N*parent=nullptr; u_json_t*j=nullptr; bool frozen=false; };
bool cont(const N*n){ return n->t==OBJ||n->t==ARR; }
std::vector<N*> roots; std::vector<N*> pool; N*mk(){ pool.push_back(new N); return pool.back(); }
void collect(N*n,std::vector<N*>&v){ v.push_back(n); for(auto k:n->kids) collect(k,v); }
N*top(N*n){ while(n->parent) n=n->parent; return n; }
// reference parser (RFC 4627); strings and numbers kept as written
struct Ref { const std::string&s; size_t p=0; bool ok=true, unspec=false; size_t maxtok=0; unsigned maxdepth=0; Ref(const std::string&x):s(x){}
  void ws(){ while(p<s.size()&&(s[p]==' '||s[p]=='\t'||s[p]=='\n'||s[p]=='\r')) p++; if(p<s.size()&&(s[p]=='\v'||s[p]=='\f')) unspec=true; } bool eat(char c){ if(p<s.size()&&s[p]==c){ p++; return true; } return false; } N*bad(){ ok=false; return nullptr; }
  bool str(std::string&o){ if(!eat('"')) return false; size_t b=p; while(p<s.size()&&s[p]!='"'){ unsigned char c=s[p]; if(c<0x20) return false; if(c=='\\'){ p++; if(p>=s.size()) return false; if(s[p]=='u'){ for(int i=0;i<4;i++){ p++; if(p>=s.size()||!isxdigit((unsigned char)s[p])) return false; } } else if(!strchr("\"\\/bfnrt",s[p])) return false; } p++; } if(p>=s.size()) return false; o=s.substr(b,p-b); maxtok=std::max(maxtok,o.size()); p++; return true; }
  bool num(std::string&o){ size_t b=p; eat('-'); if(eat('0')){} else { if(p>=s.size()||!isdigit((unsigned char)s[p])) return false; while(p<s.size()&&isdigit((unsigned char)s[p])) p++; } if(eat('.')){ if(p>=s.size()||!isdigit((unsigned char)s[p])) return false; while(p<s.size()&&isdigit((unsigned char)s[p])) p++; } if(p<s.size()&&(s[p]=='e'||s[p]=='E')){ p++; if(p<s.size()&&(s[p]=='+'||s[p]=='-')) p++; if(p>=s.size()||!isdigit((unsigned char)s[p])) return false; while(p<s.size()&&isdigit((unsigned char)s[p])) p++; } o=s.substr(b,p-b); maxtok=std::max(maxtok,o.size()); return true; }
  N*value(unsigned d){ maxdepth=std::max(maxdepth,d); ws(); if(p>=s.size()) return bad(); N*n=mk(); char c=s[p]; if(c=='"'){ n->t=STR; if(!str(n->val)) return bad(); } else if(c=='-'||isdigit((unsigned char)c)){ n->t=NUM; if(!num(n->val)) return bad(); } else if(c=='{'||c=='['){ if(d>200){ unspec=true; return bad(); } n->t=c=='{'?OBJ:ARR; char e=c=='{'?'}':']'; p++; ws(); if(eat(e)) return n; for(;;){ std::string k; if(n->t==OBJ){ ws(); if(!str(k)) return bad(); ws(); if(!eat(':')) return bad(); } N*x=value(d+1); if(!x) return nullptr; x->key=k; x->parent=n; n->kids.push_back(x); ws(); if(eat(e)) return n; if(!eat(',')) return bad(); ws(); if(p<s.size()&&s[p]==e){ unspec=true; return bad(); } } }
    else { static const struct { const char*w; int t; } W[]={{"true",TRU},{"false",FAL},{"null",NUL}}; for(auto&w:W) if(s.compare(p,strlen(w.w),w.w)==0){ n->t=w.t; p+=strlen(w.w); return n; } return bad(); } return n; }
  N*doc(){ ws(); if(p>=s.size()||(s[p]!='{'&&s[p]!='[')) return bad(); return value(0); } };
std::string enc(const N*n,bool key,int sp=0){ auto w=[&]{ std::string o; if(sp) for(int i=draw(3);i>0;i--) o+=" \t\n\r"[draw(4)]; return o; }; std::string o; if(key) o+="\""+n->key+"\""+w()+":"+w(); switch(n->t){ case STR: o+="\""+n->val+"\""; break; case NUM: o+=n->val; break; case TRU: o+="true"; break; case FAL: o+="false"; break; case NUL: o+="null"; break; default: { o+=n->t==OBJ?"{":"["; o+=w(); for(size_t i=0;i<n->kids.size();i++){ if(i) o+=","+w(); o+=enc(n->kids[i],n->t==OBJ,sp)+w(); } o+=n->t==OBJ?"}":"]"; } } return o; }
bool same(const N*a,const N*b,bool key){ if(a->t!=b->t||(key&&a->key!=b->key)||((a->t==STR||a->t==NUM)&&a->val!=b->val)||a->kids.size()!=b->kids.size()) return false; for(size_t i=0;i<a->kids.size();i++) if(!same(a->kids[i],b->kids[i],a->t==OBJ)) return false; return true; }
std::string jstr(){ switch(draw(9)){ case 8: return std::string(120+draw(10),'s'); case 7: { static const char*k[]={"a.b","a[0]","","a","0"}; return k[draw(5)]; } case 6: { std::string s; int n=draw(12); while(n--){ int k=draw(8); if(k==0) s+="\\n"; else if(k==1) s+="\\\""; else if(k==2) s+="\\u00E9"; else if(k==3) s+=(char)(128+draw(128)); else if(k==4) s+="\\\\"; else if(k==5) s+=std::string("{}[],:'/")[draw(8)]; else if(k==6) s+="\x7f"; else s+=' '; } return s; } default: { static const char*k[]={"a","b","c","key","value","x1"}; return k[draw(6)]; } } }
std::string jnum(){ switch(draw(8)){ case 7: { static const char*k[]={"-0","0","9223372036854775807","-9223372036854775808","9223372036854775808","-9223372036854775809","1e400","1E-400","0.1","123456789.125"}; return k[draw(10)]; } case 6: { std::string s=std::to_string(1+draw(9)); int n=draw(2)?draw(30):115+draw(15); while(n--) s+='0'+draw(10); return s; } case 5: { std::string s=draw(2)?"-":""; s+=std::to_string(draw(1000)); if(draw(2)) s+="."+std::to_string(draw(1000)); if(draw(2)) s+=std::string(draw(2)?"e":"E")+(draw(3)?"":draw(2)?"+":"-")+std::to_string(draw(20)); return s; } default: return std::to_string(range(-50,1000)); } }
std::string badnum(){ static const char*k[]={"12abc","","-","1.","01","1e","+1","0x10","1 ","--1","1,2","nan"," 1","1]"}; return k[draw(14)]; }
std::string badstr(){ static const char*k[]={"ab\"c","tab\t","nl\n","\\x","\\u12","end\\","\"","\\u12G4","a\" "}; return k[draw(9)]; }
N*gen(int depth){ N*n=mk(); int k=draw(depth>0?10:6); switch(k){ case 0: n->t=NUM; n->val=jnum(); break; case 1: case 5: n->t=STR; n->val=jstr(); break; case 2: n->t=TRU; break; case 3: n->t=FAL; break; case 4: n->t=NUL; break; default: { Span sp; n->t=k>=8?ARR:OBJ; int c=draw(4)?draw(4):draw(12); while(c--){ N*x=gen(depth-1); x->parent=n; x->key=n->t==OBJ?jstr():""; n->kids.push_back(x); } if(n->t==OBJ&&n->kids.size()>1&&draw(4)==3){ N*a=n->kids[draw(n->kids.size())],*b=n->kids[draw(n->kids.size())]; if(a!=b) a->key=draw(3)?b->key+(draw(2)?"[0]":".a"):b->key; } } } return n; }
void bind(N*n,u_json_t*j){ n->j=j; if(!cont(n)) return; u_json_it_t it; u_json_it(u_json_child_first(j),&it); for(auto k:n->kids){ u_json_t*c=u_json_it_next(&it); if(!c) fail("C17","children","a container of %zu children ends early",n->kids.size()); bind(k,c); } if(u_json_it_next(&it)) fail("C17","children","a container has more than its %zu children",n->kids.size()); }
// complete comparison of a library value with the model, through encode
void verify(N*r,const char*after){ NoFault nf; std::vector<N*> v; collect(r,v); for(auto n:v) if(n->t==UNK) return; char*s=NULL; int rc=u_json_encode(r->j,&s); CHECKP("C17",rc==0&&s,"encode-failed","after %s, encoding a value of %zu node(s) fails",after,v.size()); std::string t=s; xfree(s); std::string body=t; if(!r->parent&&!r->key.empty()){ std::string k="\""+r->key+"\""; if(body.compare(0,k.size(),k)==0){ size_t c=body.find(':',k.size()); if(c!=std::string::npos) body=body.substr(c+1); } } Ref R(body); N*m=R.value(0); if(m){ R.ws(); if(R.p!=body.size()) m=nullptr; } CHECKP("C17",m,"encode-syntax","after %s, the encoding is not a JSON value: %s",after,q(t,200).c_str()); CHECKP("C17",same(m,r,false),"encode-value","after %s, the value is encoded as %s, the tree is %s",after,q(t,200).c_str(),q(enc(r,false),200).c_str()); }
void access(N*n){ NoFault nf; u_json_t*j=n->j; const char*v=u_json_get_val(j); std::string e=n->t==STR||n->t==NUM?n->val:n->t==TRU?"true":n->t==FAL?"false":n->t==NUL?"null":""; if(cont(n)) CHECKP("C17",!v,"get_val","a container has a value"); else CHECKP("C17",v&&e==v,"get_val","u_json_get_val is %s instead of %s",v?q(v).c_str():"NULL",q(e).c_str());
  char b=77; int rc=u_json_get_bool(j,&b); if(n->t==TRU||n->t==FAL) CHECKP("C17",rc==0&&b==(n->t==TRU),"get_bool","u_json_get_bool=%d, %d",rc,b); else CHECKP("C17",rc!=0,"get_bool","u_json_get_bool succeeds on something that is no boolean");
  static const int es[]={0,ERANGE,EINVAL,ENOENT}; int e0=es[draw(4)]; errno=e0; long l=77; rc=u_json_get_int(j,&l); if(n->t!=NUM) CHECKP("C17",rc!=0,"get_int","u_json_get_int succeeds on something that is no number"); else if(n->val.find_first_of(".eE")==std::string::npos){ errno=0; long w=strtol(n->val.c_str(),NULL,10); if(errno) CHECKP("C17",rc!=0,"get_int","u_json_get_int(%s) gave %ld, the number does not fit",n->val.c_str(),l); else CHECKP("C17",rc==0&&l==w,"get_int","u_json_get_int of %s returned %d, value %ld (errno was %d before)",n->val.c_str(),rc,l,e0); }
  double d=77; errno=e0; rc=u_json_get_real(j,&d); if(n->t!=NUM) CHECKP("C17",rc!=0,"get_real","u_json_get_real succeeds on something that is no number"); else { errno=0; double w=strtod(n->val.c_str(),NULL); if(errno) CHECKP("C17",rc!=0,"get_real","u_json_get_real(%s) succeeds, the number does not fit",n->val.c_str()); else CHECKP("C17",rc==0&&d==w,"get_real","u_json_get_real of %s returned %d, value %g",n->val.c_str(),rc,d); }
  u_json_t*f=u_json_child_first(j),*la=u_json_child_last(j); CHECKP("C17",f==(n->kids.empty()?NULL:n->kids[0]->j)&&la==(n->kids.empty()?NULL:n->kids.back()->j),"children","u_json_child_first/last is wrong for a node with %zu children",n->kids.size());
  u_json_it_t it; size_t i=0; u_json_it(f,&it); u_json_t*c; while((c=u_json_it_next(&it))){ CHECKP("C17",i<n->kids.size()&&n->kids[i]->j==c,"iterate","forward iteration goes wrong at child %zu of %zu",i,n->kids.size()); i++; } CHECKP("C17",i==n->kids.size(),"iterate","forward iteration ended after %zu of %zu children",i,n->kids.size());
  u_json_it(la,&it); while((c=u_json_it_prev(&it))){ CHECKP("C17",i>0&&n->kids[i-1]->j==c,"iterate","backward iteration goes wrong at child %zu of %zu",i,n->kids.size()); i--; } CHECKP("C17",i==0,"iterate","backward iteration ended %zu children early",i);
  unsigned cn=u_json_array_count(j); CHECKP("C17",cn==(n->t==ARR?n->kids.size():0),"array_count","u_json_array_count is %u, the array has %zu elements",cn,n->kids.size()); if(n->t==ARR) for(size_t k=0;k<=n->kids.size();k++){ u_json_t*x=u_json_array_get_nth(j,k); CHECKP("C17",x==(k<n->kids.size()?n->kids[k]->j:NULL),"array_get_nth",top(n)->frozen?"u_json_array_get_nth(%zu) of an indexed array of %zu is wrong":"u_json_array_get_nth(%zu) of an array of %zu is wrong",k,n->kids.size()); } }
struct W { std::vector<std::pair<u_json_t*,size_t>> v; }; void wcb(u_json_t*j,size_t l,void*a){ ((W*)a)->v.push_back({j,l}); }
void walk(N*r){ NoFault nf; W w; bool post=draw(2); u_json_walk(r->j,post?U_JSON_WALK_POSTORDER:U_JSON_WALK_PREORDER,0,wcb,&w); std::vector<N*> v; collect(r,v); CHECKP("C17",w.v.size()==v.size(),"walk","u_json_walk visited %zu node(s) of a value of %zu",w.v.size(),v.size()); std::map<u_json_t*,size_t> at; for(size_t i=0;i<w.v.size();i++) at[w.v[i].first]=i; CHECKP("C17",at.size()==v.size(),"walk","u_json_walk visited a node twice"); for(size_t i=0;i<v.size();i++){ N*n=v[i]; CHECKP("C17",at.count(n->j),"walk","u_json_walk missed a node"); size_t d=0; for(N*x=n;x!=r;x=x->parent) d++; CHECKP("C17",w.v[at[n->j]].second==d,"walk","u_json_walk reports depth %zu for a node at depth %zu",w.v[at[n->j]].second,d); if(!post) CHECKP("C17",at[n->j]==i,"walk","the pre-order walk is not in document order"); else if(n!=r) CHECKP("C17",at[n->parent->j]>at[n->j],"walk","the post-order walk visited a container before its child"); } }
void drop(N*n){ if(n->parent){ auto&k=n->parent->kids; k.erase(std::find(k.begin(),k.end(),n)); n->parent=nullptr; } else roots.erase(std::find(roots.begin(),roots.end(),n)); }
std::string path(N*n,N*from){ if(n==from) return ""; N*p=n->parent; std::string b=path(p,from); if(p->t==OBJ) return b+"."+n->key; size_t i=std::find(p->kids.begin(),p->kids.end(),n)-p->kids.begin(); return b+"["+std::to_string(i)+"]"; }
bool plainkey(const std::string&k){ return !k.empty()&&k.find_first_of(".[]")==std::string::npos; }
bool unambiguous(N*r){ std::vector<N*> v; collect(r,v); for(auto n:v){ std::set<std::string> s; if(n->t==OBJ) for(auto k:n->kids) if(!plainkey(k->key)||!s.insert(k->key).second) return false; } return true; }
N*anyroot(){ return roots.empty()?nullptr:roots[draw(roots.size())]; }
N*anynode(){ N*r=anyroot(); if(!r) return nullptr; std::vector<N*> v; collect(r,v); return v[draw(v.size())]; }
}
#define VERIFY(after) do { for(auto r_:roots) verify(r_,after); } while(0)
static void scen_json_edit(){
  roots.clear(); for(auto p:pool) delete p; pool.clear(); baseline(); size_t nops=0;
  while(nops<30&&more(14)){ Span sp; nops++; int op=draw(20); u64 h0=hard_faults(); const char*on="?"; auto err=[&]{ return hard_faults()>h0; }; int rc=0;
    if(op<=4||roots.empty()){ // build
      if(roots.size()>=4) continue; on="u_json_new_*"; u_json_t*j=NULL; N*n=mk(); std::string key=draw(3)?jstr():std::string(); const char*kp=key.empty()&&draw(2)?NULL:key.c_str(); n->key=key; bool okv=true; int k=draw(9);
      switch(k){ case 0: n->t=OBJ; rc=LIBCALL(u_json_new_object(kp,&j)); break; case 1: n->t=ARR; rc=LIBCALL(u_json_new_array(kp,&j)); break;
        case 2: { n->t=STR; bool bad=draw(6)==5; n->val=bad?badstr():jstr(); okv=!bad&&n->val.size()<128; rc=LIBCALL(u_json_new_string(kp,n->val.c_str(),&j)); break; } case 3: { n->t=NUM; bool bad=draw(6)==5; n->val=bad?badnum():jnum(); okv=!bad&&n->val.size()<128; rc=LIBCALL(u_json_new_number(kp,n->val.c_str(),&j)); break; }
        case 4: { n->t=NUM; long l=draw(4)==3?(draw(2)?LONG_MIN:LONG_MAX):(long)range(-1000,100000); n->val=std::to_string(l); rc=LIBCALL(u_json_new_int(kp,l,&j)); break; } case 5: n->t=NUL; rc=LIBCALL(u_json_new_null(kp,&j)); break; case 6: { int b=draw(2); n->t=b?TRU:FAL; rc=LIBCALL(u_json_new_bool(kp,b,&j)); break; }
        case 7: { n->t=NUM; double d=(double)range(-4000,4000)/(draw(2)?8:1); if(draw(5)==4) d=draw(2)?1e30:-1e-7; bool inf=draw(8)==7; if(inf){ d=draw(2)?1e308*10:NAN; okv=false; } char b[64]; snprintf(b,64,"%g",d); n->val=b; rc=LIBCALL(u_json_new_real(kp,d,&j)); if(!rc&&!inf){ double g=0; NoFault nf; CHECKP("C17",u_json_get_real(j,&g)==0&&g==strtod(b,NULL),"new_real","u_json_new_real(%s) reads back as %g",b,g); n->val=S_(u_json_get_val(j)); } break; }
        default: { N*g=gen(3); if(!cont(g)){ N*a=mk(); a->t=ARR; a->kids.push_back(g); g->parent=a; g=a; } std::string t=enc(g,false,draw(2)); Ref R(t); N*m=R.doc(); n=m; rc=LIBCALL(u_json_decode(t.c_str(),&j)); okv=R.maxtok<=126; key=""; trace("op decode %s",q(t,150).c_str()); if(!rc){ NoFault nf; bind(n,j); } break; } }
      trace("op new %d key %s val %s = %d%s",k,q(key).c_str(),q(n->val).c_str(),rc,err()?" (fault)":"");
      bool okk=key.size()<128; if(rc==0){ CHECKP("C17",okv,"accepted","a value that is not valid or does not fit was accepted: %s",q(n->val,140).c_str()); CHECKP("C17",okk,"accepted","a key of %zu characters was accepted",key.size()); n->j=j; roots.push_back(n); } else { CHECKP("C17",err()||!okv||!okk||n->val.size()>126,"refused","creation failed for value %s, key %s, without a fault",q(n->val).c_str(),q(key).c_str()); } }
    else if(op<=7){ on="u_json_add"; N*h=anynode(),*c=anyroot(); if(!h||!c||top(h)==c) continue; rc=LIBCALL(u_json_add(h->j,c->j)); trace("op add to %s=%d",cont(h)?"container":"atom",rc); bool ok=cont(h)&&!top(h)->frozen; CHECKP("C17",(rc==0)==ok,"add","u_json_add to a%s returned %d",!cont(h)?"n atom":top(h)->frozen?"n indexed value":" container",rc); if(!rc){ if(c->frozen) probe("added-indexed"); c->frozen=false; drop(c); c->parent=h; h->kids.push_back(c); } }
    else if(op==8){ on="u_json_remove"; N*n=anynode(); std::vector<N*> v; collect(n,v); bool fz=top(n)->frozen; rc=LIBCALL(u_json_remove(n->j)); trace("op remove a node of %zu=%d",v.size(),rc); CHECKP("C17",(rc!=0)==fz,"remove","u_json_remove on a%s value returned %d",fz?"n indexed":" plain",rc); if(!rc){ drop(n); for(auto x:v) CHECKP("C20",!is_live(x->j),"leak-node","u_json_remove left a node of the removed value allocated"); } }
    else if(op==9){ on="u_json_set_key"; N*n=anynode(); std::string k=jstr(); bool null=draw(8)==7; if(null) k=""; rc=LIBCALL(u_json_set_key(n->j,null?NULL:k.c_str())); trace("op set_key %s=%d",q(k).c_str(),rc); bool ok=!top(n)->frozen&&k.size()<128; CHECKP("C17",(rc==0)==ok,"set_key","u_json_set_key(%s) on a%s value returned %d",q(k).c_str(),top(n)->frozen?"n indexed":" plain",rc); if(!rc) n->key=k; }
    else if(op==10||op==11){ on="u_json_set_val"; N*n=anynode(); bool chk=draw(3), bad=chk&&draw(3)==2; std::string v=n->t==NUM?(bad?badnum():jnum()):(bad?badstr():jstr()); if(n->t!=NUM&&n->t!=STR) bad=false; rc=chk?LIBCALL(u_json_set_val_ex(n->j,v.c_str(),1)):LIBCALL(u_json_set_val(n->j,v.c_str())); trace("op set_val%s %s=%d%s",chk?"_ex":"",q(v).c_str(),rc,err()?" (fault)":""); bool at=n->t==NUM||n->t==STR; if(at){ if(rc==0){ CHECKP("C17",!bad,"accepted","u_json_set_val_ex accepted %s as a %s",q(v).c_str(),n->t==NUM?"number":"string"); CHECKP("C17",v.size()<128,"accepted","a value of %zu characters was accepted",v.size()); n->val=v; } else CHECKP("C17",err()||bad||v.size()>126,"refused","u_json_set_val(%s) failed without a fault",q(v).c_str()); } }
    else if(op==12){ on="u_json_set_type"; N*n=anynode(); if(!n->kids.empty()) continue; static const int ts[]={STR,NUM,OBJ,ARR,TRU,FAL,NUL}; int t=ts[draw(7)]; std::string cv=n->val; if((t==STR||t==NUM)&&!(n->t==STR||n->t==NUM)) continue; if(t==NUM&&n->t==STR) continue; rc=LIBCALL(u_json_set_type(n->j,(u_json_type_t)t)); trace("op set_type %d=%d",t,rc); CHECKP("C17",(rc!=0)==top(n)->frozen,"set_type","u_json_set_type on a%s value returned %d",top(n)->frozen?"n indexed":" plain",rc); if(!rc) n->t=t; if(draw(8)==7){ rc=LIBCALL(u_json_set_type(n->j,(u_json_type_t)99)); CHECKP("C17",rc!=0,"set_type","an unknown type was accepted"); } }
    else if(op==13){ on="u_json_index"; N*n=draw(5)?anyroot():anynode(); rc=LIBCALL(u_json_index(n->j)); trace("op index=%d%s",rc,err()?" (fault)":""); if(n->parent){ if(!top(n)->frozen) CHECKP("C17",rc!=0,"index","a node that is not top-level was indexed"); } else if(rc==0) n->frozen=true; else if(!n->frozen){ size_t mx=0; std::vector<N*> v; collect(n,v); for(auto x:v) mx=std::max(mx,path(x,n).size()+1); CHECKP("C17",err()||mx>=256,"index","u_json_index failed without a fault (longest name has %zu characters)",mx); probe("index-failed"); } else CHECKP("C17",false,"index","u_json_index of an indexed value failed"); }
    else if(op==14){ on="u_json_unindex"; N*n=anyroot(); rc=LIBCALL(u_json_unindex(n->j)); trace("op unindex=%d",rc); CHECKP("C17",rc==0,"unindex","u_json_unindex failed"); n->frozen=false; }
    else if(op<=16){ on="u_json_cache_get"; N*r=anyroot(); std::vector<N*> v; collect(r,v); N*n=v[draw(v.size())],*h=r; if(draw(3)==2){ std::vector<N*> an; for(N*x=n;x;x=x->parent) an.push_back(x); h=an[draw(an.size())]; } bool rel=draw(2); std::string name=rel?path(n,h):"."+path(n,r); bool miss=draw(8)==7; if(miss) name+=draw(2)?".nosuchkey":"[77]"; u_json_t*j=LIBCALL(u_json_cache_get(h->j,name.c_str())); trace("op cache_get(%s%s)=%s",h==r?"":"from a child, ",q(name,200).c_str(),j?"node":"NULL");
      if(!r->frozen) CHECKP("C17",!j,"not-indexed","u_json_cache_get finds a node in a value that is not indexed"); else if(name.size()<=255&&unambiguous(r)){ if(miss) CHECKP("C17",!j,"cache_get","u_json_cache_get(%s) finds a node that is not there",q(name).c_str()); else if(rel&&n==h) CHECKP("C17",j==h->j||!j,"cache_get","the empty name does not lead to the node itself"); else CHECKP("C17",j==n->j||(err()&&!j),"cache_get","u_json_cache_get(%s) from %s returned %s",q(name,200).c_str(),h==r?"the root":"an inner node",j?"another node":"NULL"); 
        if(!miss&&j==n->j){ probe("cached-lookup"); const char*cv; { NoFault nf; cv=u_json_cache_get_val(h->j,name.c_str()); } std::string e=n->t==STR||n->t==NUM?n->val:n->t==TRU?"true":n->t==FAL?"false":"null"; CHECKP("C17",cont(n)?!cv:(cv&&e==cv),"cache_get_val","u_json_cache_get_val gives %s for %s",cv?q(cv).c_str():"NULL",q(e).c_str()); long a=1,b=2; int r1,r2; { NoFault nf; r1=u_json_cache_get_int(h->j,name.c_str(),&a); r2=u_json_get_int(n->j,&b); } CHECKP("C17",r1==r2&&(r1||a==b),"cache_get_int","indexed and direct lookup of an integer disagree"); double x=1,y=2; { NoFault nf; r1=u_json_cache_get_real(h->j,name.c_str(),&x); r2=u_json_get_real(n->j,&y); } CHECKP("C17",r1==r2&&(r1||x==y),"cache_get_real","indexed and direct lookup of a real disagree"); char c=1,d=1; { NoFault nf; r1=u_json_cache_get_bool(h->j,name.c_str(),&c); r2=u_json_get_bool(n->j,&d); } CHECKP("C17",r1==r2&&(r1||c==d),"cache_get_bool","indexed and direct lookup of a boolean disagree"); }
        if(!miss&&j==n->j&&draw(2)){ on="u_json_cache_set_tv"; static const int ts[]={UNK,STR,NUM,TRU,FAL,NUL,OBJ}; int t=ts[draw(7)]; int nt=t==UNK?n->t:t; std::string v2=nt==NUM?jnum():jstr(); bool nul=draw(8)==7; rc=LIBCALL(u_json_cache_set_tv(h->j,name.c_str(),(u_json_type_t)t,nul?NULL:v2.c_str())); bool need=nt==STR||nt==NUM, ok=!cont(n)&&t!=OBJ&&!(need&&(nul||v2.size()>=128)); trace("op cache_set_tv(%s, type %d, %s)=%d",q(name).c_str(),t,nul?"NULL":q(v2).c_str(),rc); if(rc==0){ CHECKP("C17",ok,"cache_set_tv","u_json_cache_set_tv succeeded on a %s with type %d, value of %zu characters",cont(n)?"container":"leaf",t,v2.size()); n->t=nt; if(need) n->val=v2; } else CHECKP("C17",!ok||err(),"cache_set_tv","u_json_cache_set_tv(%s) failed on a leaf",q(name).c_str()); } } }
    else if(op==17){ on="walk"; if(draw(6)==5){ NoFault nf; LIBVOID(u_json_print(anyroot()->j)); trace("op print"); } else { walk(anynode()); trace("op walk"); } }
    else if(op==18){ on="accessors"; std::vector<N*> v; collect(anynode(),v); for(auto n:v) access(n); trace("op access"); }
    else { on="u_json_encode"; N*n=anynode(); char*s=NULL; rc=LIBCALL(u_json_encode(n->j,&s)); trace("op encode=%d %s%s",rc,s&&!rc?q(s,150).c_str():"",err()?" (fault)":""); if(rc) CHECKP("C17",err(),"encode-failed","u_json_encode failed without a fault"); else { CHECKP("C17",s,"encode","u_json_encode succeeded without a result"); std::string t=s; xfree(s); std::string body=t; if(!n->key.empty()||n->parent){ std::string k="\""+n->key+"\""; if(body.compare(0,k.size(),k)==0){ size_t c=body.find_first_not_of(" ",k.size()); if(c!=std::string::npos&&body[c]==':') body=body.substr(c+1); } } Ref R(body); N*m=R.value(0); if(m){ R.ws(); if(R.p!=body.size()) m=nullptr; } CHECKP("C17",m&&same(m,n,false),err()?"encode-incomplete":"encode","the encoding of a node is %s instead of %s",q(t,200).c_str(),q(enc(n,false),200).c_str());
        if(cont(n)&&!n->parent&&n->key.empty()){ u_json_t*j2=NULL; int r2=LIBCALL(u_json_decode(t.c_str(),&j2)); if(r2) CHECKP("C17",err()||R.maxtok>126||R.maxdepth>=U_JSON_MAX_DEPTH,"round-trip","the encoding of a value is not accepted by u_json_decode: %s",q(t,200).c_str()); else { N*c=mk(); *c=N(); N*mm=m; { NoFault nf; bind(mm,j2); } verify(mm,"decoding its own encoding"); LIBVOID(u_json_free(j2)); } } } }
    VERIFY(on); if(err()) probe("op-with-fault");
  }
  for(auto r:roots) { LIBVOID(u_json_free(r->j)); } roots.clear(); check_balance("JSON values");
}
static Reg r1("json-edit",{"C17"},scen_json_edit,2);
static void scen_json_decode(){
  roots.clear(); for(auto p:pool) delete p; pool.clear(); baseline();
  N*g=draw(4)?gen(3):nullptr; std::string t; if(g){ if(!cont(g)&&draw(8)){ N*a=mk(); a->t=draw(2)?ARR:OBJ; g->key="k"; a->kids.push_back(g); g->parent=a; g=a; } t=enc(g,false,draw(2)); } else { static const char*tk[]={"{","}","[","]",",",":","\"a\"","1","-2.5e3","true","false","null"," ","\n","\"\"","tru","t rue","0","\"\\u00e9\"","x","\"","\"\\","\\\"","\"a\\x","-","1.","01",".5","\"k\":","\"k\":1,","],","},","\"\\u12","/**/"}; int n=1+draw(14); t=draw(3)?"[":"{"; while(n--) t+=tk[draw(34)]; }
  if(draw(8)==7){ unsigned d=draw(24); bool o=draw(2); std::string a,b; for(unsigned i=0;i<d;i++){ a+=o?"{\"k\":":"["; b=(o?"}":"]")+b; } t=a+(d?(draw(2)?"1":o?"{}":"[]"):"[]")+b; }
  int muts=draw(3)==2?1+draw(3):0; while(muts--&&!t.empty()){ Span sp; size_t p=draw(t.size()); switch(draw(4)){ case 0: t.erase(p,1+draw(3)); break; case 1: t.insert(p,1,"{}[],:\"0-.e \\ntx/"[draw(17)]); break; case 2: t[p]=(char)(1+draw(255)); break; default: t.resize(p); } } if(draw(6)==5) t=std::string(draw(3),' ')+t+(draw(2)?" trailing":"\n");
  Ref R(t); N*m=R.doc(); bool valid=m&&R.ok; bool lim=R.maxtok<=126&&R.maxdepth<U_JSON_MAX_DEPTH; u64 h0=hard_faults(); u_json_t*j=(u_json_t*)1; int rc=LIBCALL(u_json_decode(t.c_str(),&j)); bool err=hard_faults()>h0; trace("op decode %s=%d%s (%s%s)",q(t,250).c_str(),rc,err?" (fault)":"",valid?"valid":R.unspec?"unspecified":"not JSON",lim?"":", beyond the limits");
  if(rc==0){ if(!R.unspec) CHECKP("C17",valid,"accepted","u_json_decode accepted a text that is not JSON: %s",q(t,200).c_str()); CHECKP("C17",lim||!valid,"accepted","u_json_decode accepted a text beyond its limits (token of %zu, depth %u)",R.maxtok,R.maxdepth); if(valid){ { NoFault nf; bind(m,j); } verify(m,"decode"); std::vector<N*> v; collect(m,v); for(auto n:v) if(n->parent||true) access(n); if(draw(2)) walk(m); } } else CHECKP("C17",err||!valid||!lim||R.unspec,"refused","u_json_decode refused a valid text: %s",q(t,200).c_str());
  char st[U_LEXER_ERR_SZ+1]; memset(st,0x5a,sizeof st); u64 h1=hard_faults(); int rv=LIBCALL(u_json_validate(t.c_str(),st)); bool e2=hard_faults()>h1; trace("op validate=%d%s",rv,e2?" (fault)":""); if(rv==0){ if(!R.unspec) CHECKP("C17",valid,"validated","u_json_validate accepted a text that is not JSON: %s",q(t,200).c_str()); } else { CHECKP("C17",e2||!valid||R.unspec||R.maxtok>126,"validate-refused","u_json_validate refused a valid text: %s",q(t,200).c_str()); CHECKP("C17",strnlen(st,U_LEXER_ERR_SZ)<U_LEXER_ERR_SZ,"status","the status of a failed validation is not a terminated string"); }
  if(rc==0) LIBVOID(u_json_free(j)); check_balance("JSON decode");
}
static Reg r2("json-decode",{"C17"},scen_json_decode,1);

// Large inputs: the same properties at sizes where growth, index and length arithmetic can go wrong (thousands of elements, texts beyond 64 KB).
// Rare (weight -n: n two-hundredths of an ordinary scenario) because one run costs milliseconds.
#include "common.h"
#include <u/toolbox/json.h>
#include <u/toolbox/rb.h>
#include <u/toolbox/lexer.h>
namespace {
struct Gen { u64 s; Gen():s(draw(1u<<20)*0x9e3779b97f4a7c15ull+1){} u32 operator()(u32 n){ s^=s<<13; s^=s>>7; s^=s<<17; return n?(u32)((s>>11)%n):0; } };
size_t bigsize(){ static const u32 c[]={1000,4096,8192,16384,32768,65536,100000,131072}; u32 b=c[draw(8)]; switch(draw(3)){ case 0: return b; case 1: return b-2+draw(5); default: return b+draw(b); } }
size_t count(){ static const u32 c[]={128,256,512,1000,1024,2048}; u32 b=c[draw(6)]; return draw(2)?b-2+draw(5):b+draw(b); }
// now and then more than 16 bits can count, where the structure allows that many in bounded time
size_t count64(){ if(draw(10)<9) return count(); return draw(2)?65536-2+draw(5):65536+draw(9000); }
std::string bytes(Gen&g,size_t n){ std::string s(n,0); for(auto&c:s) c="abcdefghijklmnopqrstuvwxyz0123456789"[g(36)]; return s; }
char cells[80000];
}
static void big_list(){ u_list_t*l=NULL; Gen g; std::vector<void*> m; { NoFault nf; if(u_list_create(&l)) end_run(); } size_t n=count64(); trace("op add %zu elements",n); for(size_t i=0;i<n;i++){ void*v=&cells[g(8192)]; u64 h0=hard_faults(); if(LIBCALL(u_list_add(l,v))==0) m.push_back(v); else CHECKP("C16",hard_faults()>h0,"list-refused","adding element %zu failed although memory was available",i); }
  auto check=[&](const char*w){ NoFault nf; CHECKP("C16",u_list_count(l)==m.size(),"list-count","%s: the list counts %zu elements instead of %zu",w,u_list_count(l),m.size()); void*it; size_t i=0; for(void*p=u_list_first(l,&it);p;p=u_list_next(l,&it),i++) CHECKP("C16",i<m.size()&&p==m[i],"list-order","%s: element %zu of %zu is wrong",w,i,m.size()); CHECKP("C16",i==m.size(),"list-order","%s: iteration ends after %zu of %zu",w,i,m.size()); for(int k=0;k<30;k++){ size_t x=g(m.size()+1); CHECKP("C16",u_list_get_n(l,x)==(x<m.size()?m[x]:NULL),"list-index","%s: element %zu of %zu is wrong",w,x,m.size()); } };
  check("after adding"); for(int k=0;k<60;k++){ size_t x=g(m.size()+1); if(g(2)){ void*v=&cells[g(8192)]; u64 h0=hard_faults(); if(LIBCALL(u_list_insert(l,v,x))==0) m.insert(m.begin()+x,v); else CHECKP("C16",hard_faults()>h0,"list-refused","inserting at %zu of %zu failed",x,m.size()); } else { void*o=NULL; int rc=LIBCALL(u_list_del_n(l,x,&o)); CHECKP("C16",(rc==0)==(x<m.size()),"list-del","deleting element %zu of %zu returned %d",x,m.size(),rc); if(!rc){ CHECKP("C16",o==m[x],"list-del","deleting element %zu of %zu hands out another one",x,m.size()); m.erase(m.begin()+x); } } }
  check("after editing"); if(m.size()<9000&&draw(2)){ while(!m.empty()){ size_t x=m.size()-1; NoFault nf; CHECKP("C16",u_list_del_n(l,x,NULL)==0,"list-del","the last of %zu elements can't be deleted",m.size()); m.pop_back(); if(m.size()<8) break; } check("after shrinking"); } LIBVOID(u_list_free(l)); }
static void big_array(){ u_array_t*a=NULL; Gen g; bool dbl=draw(2); { NoFault nf; if(u_array_create(dbl?U_ARRAY_TYPE_DOUBLE:U_ARRAY_TYPE_INT,draw(2)?1:draw(300),&a)) end_run(); } std::map<size_t,int> m; size_t top=0, n=0; 
  while(n<40&&more(20)){ n++; size_t i; switch(draw(4)){ case 0: i=top; break; case 1: i=top*2+draw(3); break; case 2: i=bigsize(); break; default: i=top?draw(top):0; } if(i>300000) i=300000-draw(100); if(draw(6)==5){ size_t k=200+draw(400), hi=top; u64 h0=hard_faults(); bool bad=false; for(size_t j=0;j<k;j++){ int v=g(1<<30); int rc=dbl?LIBCALL(u_array_set_double(a,top+j,v,NULL)):LIBCALL(u_array_set_int(a,top+j,v,NULL)); if(rc) bad=true; else { m[top+j]=v; hi=top+j+1; } } CHECKP("C16",!bad||hard_faults()>h0,"array-refused","filling slots from %zu failed",top); top=hi; continue; }
    int v=g(1<<30); u64 h0=hard_faults(); int rc=dbl?LIBCALL(u_array_set_double(a,i,v,NULL)):LIBCALL(u_array_set_int(a,i,v,NULL)); trace("op set [%zu]=%d",i,rc); CHECKP("C16",rc==0||hard_faults()>h0,"array-refused","setting slot %zu failed although memory was available",i); if(!rc){ m[i]=v; top=std::max(top,i+1); } }
  NoFault nf; for(auto&e:m){ int v=-1; double d=-1; int rc=dbl?u_array_get_double(a,e.first,&d):u_array_get_int(a,e.first,&v); if(dbl) v=(int)d; CHECKP("C16",rc==0&&v==e.second,"array-value","slot %zu of %zu is lost or wrong",e.first,top); } for(int k=0;k<200&&top;k++){ size_t i=g(top); if(m.count(i)) continue; int v=-1; double d=-1; int rc=dbl?u_array_get_double(a,i,&d):u_array_get_int(a,i,&v); if(dbl) v=(int)d; CHECKP("C16",rc==0&&v==0,"array-value","slot %zu, never set, reads %d",i,v); } u_array_free(a); }
static void big_pq(){ Gen g; size_t cap=draw(4)==3?65536-2+draw(3000):count()*(1+draw(4)); u_pq_t*q=NULL; { NoFault nf; if(u_pq_create(cap,&q)) end_run(); } std::multiset<std::pair<double,u64>> m; trace("op queue of %zu",cap); u64 seq=16; int dom=draw(2)?50:1000000; size_t n=cap*2; bool full=draw(2); for(size_t i=0;i<n;i++){ if(g(full?8:3)||m.empty()){ double k=g(dom); seq+=16; int rc=LIBCALL(u_pq_push(q,k,(void*)seq)); CHECKP("C16",rc==(m.size()==cap?-2:0),"pq-push","pushing into a queue of %zu/%zu elements returned %d",m.size(),cap,rc); if(!rc) m.insert({k,seq}); } else { double k=-1; u64 v=(u64)LIBCALL(u_pq_delmax(q,&k)); CHECKP("C16",k==m.rbegin()->first&&m.count({k,v}),"pq-order","u_pq_delmax gave priority %g although the best of %zu is %g",k,m.size(),m.rbegin()->first); m.erase(m.find({k,v})); } }
  while(!m.empty()){ double k; u64 v=(u64)LIBCALL(u_pq_delmax(q,&k)); CHECKP("C16",k==m.rbegin()->first&&m.count({k,v}),"pq-order","draining gave priority %g although the best of %zu is %g",k,m.size(),m.rbegin()->first); m.erase(m.find({k,v})); } CHECKP("C16",u_pq_empty(q),"pq-count","the drained queue is not empty"); LIBVOID(u_pq_free(q)); }
static std::vector<u_bst_node_t*> *bw; static void bcb(u_bst_node_t*n,void*){ bw->push_back(n); }
static int bcmp_(const void*a,const void*b){ int x,y; memcpy(&x,a,4); memcpy(&y,b,4); return x<y?-1:x>y; }
static void big_bst(){ Gen g; static const int opts[]={U_BST_OPT_NONE,U_BST_OPT_RANDOMIZED}; u_bst_t*b=NULL; { NoFault nf; if(u_bst_new(opts[draw(2)],&b)) end_run(); u_bst_set_keyattr(b,U_BST_TYPE_OPAQUE,4); u_bst_set_cmp(b,bcmp_); } size_t n=count64(); std::multimap<int,void*> m; trace("op push %zu",n); for(size_t i=0;i<n;i++){ int k=g(draw(2)?1<<20:700); void*v=&cells[g(8192)]; u64 h0=hard_faults(); if(LIBCALL(u_bst_push(b,&k,v))==0) m.insert({k,v}); else CHECKP("C16",hard_faults()>h0,"bst-refused","u_bst_push failed although memory was available"); }
  auto check=[&](const char*w){ NoFault nf; std::vector<u_bst_node_t*> v; bw=&v; u_bst_foreach(b,bcb,NULL); CHECKP("C16",v.size()==m.size()&&u_bst_count(b)==(ssize_t)m.size(),"bst-count","%s: %zu nodes visited, %zd counted, %zu present",w,v.size(),u_bst_count(b),m.size()); size_t i=0; std::multiset<std::pair<int,void*>> A(m.begin(),m.end()),B; for(auto&e:m){ int k; memcpy(&k,u_bst_node_key(v[i]),4); CHECKP("C16",k==e.first,"bst-order","%s: key %zu of %zu is %d instead of %d",w,i,m.size(),k,e.first); B.insert({k,(void*)u_bst_node_val(v[i])}); i++; } CHECKP("C16",A==B,"bst-content","%s: the pairs in the tree are not those inserted",w); for(int k=0;k<40&&!v.empty();k++){ size_t x=g(v.size()); CHECKP("C16",u_bst_find_nth(b,x)==v[x],"bst-rank","%s: element number %zu of %zu is wrong",w,x,v.size()); } };
  check("after inserting"); if(draw(2)){ int rc=LIBCALL(u_bst_balance(b)); trace("op balance=%d",rc); check("after balancing"); } size_t d=0; for(int k=0;k<100&&!m.empty();k++){ auto i=m.lower_bound(g(1<<20)); if(i==m.end()) i=m.begin(); int key=i->first; if(m.count(key)!=1) continue; NoFault nf; CHECKP("C16",u_bst_delete(b,&key)==0,"bst-delete","deleting the present key %d failed",key); m.erase(i); d++; } check("after deleting"); LIBVOID(u_bst_free(b)); }
static void scen_c16(){ baseline(); large_run(); switch(draw(4)){ case 0: big_list(); break; case 1: big_array(); break; case 2: big_pq(); break; default: big_bst(); } check_balance("large containers"); }
static Reg r1("bulk-containers",{"C16"},scen_c16,-10);

static void scen_c15(){ baseline(); large_run(); Gen g; bool str=draw(2); u_string_t*s=NULL; u_buf_t*b=NULL; std::string m; { NoFault nf; if(str?u_string_create(NULL,0,&s):u_buf_create(&b)) end_run(); } size_t n=0;
  while(n<12&&more(6)){ Span sp; n++; u64 h0=hard_faults(); size_t L=m.size()>400000?draw(100):bigsize(); if(draw(3)==2) L=draw(300); int rc=0; std::string want=m; const char*on="?"; bool replace=false,must=false;
    switch(draw(6)){ case 0: case 1: { std::string t=bytes(g,L); on="append"; rc=str?LIBCALL(u_string_append(s,t.data(),L)):LIBCALL(u_buf_append(b,t.data(),L)); want+=t; if(!L&&!str) must=true; break; }
      case 2: { std::string t=bytes(g,L); on="printf"; rc=str?LIBCALL(u_string_aprintf(s,"<%s|%d>",t.c_str(),7)):LIBCALL(u_buf_printf(b,"<%s|%d>",t.c_str(),7)); want+="<"+t+"|7>"; break; }
      case 3: { on="set"; std::string t=bytes(g,L+1); rc=str?LIBCALL(u_string_set(s,t.data(),t.size())):LIBCALL(u_buf_set(b,t.data(),t.size())); want=t; replace=true; break; }
      case 4: { size_t k=draw(m.size()+1); on="shorten"; rc=str?LIBCALL(u_string_set_length(s,k)):LIBCALL(u_buf_shrink(b,k)); want=m.substr(0,k); break; }
      default: { on="small appends"; int k=100+draw(1500); for(int i=0;i<k;i++){ std::string t=bytes(g,1+g(40)); h0=hard_faults(); rc=str?LIBCALL(u_string_append(s,t.data(),t.size())):LIBCALL(u_buf_append(b,t.data(),t.size())); if(!rc) want+=t; else CHECKP("C15",hard_faults()>h0,"refused","appending %zu bytes to %zu failed although memory was available",t.size(),want.size()); } rc=0; } }
    bool err=hard_faults()>h0; trace("op %s %zu =%d",on,L,rc); CHECKP("C15",rc==0||err||must,"refused","%s of %zu bytes on %zu failed although memory was available",on,L,m.size()); size_t len=str?u_string_len(s):(size_t)u_buf_len(b); if(rc==0) m=want; else if(replace&&len==0) m=""; const char*p=str?u_string_c(s):(const char*)u_buf_ptr(b);
    CHECKP("C15",len==m.size(),"length","after %s the length is %zu instead of %zu",on,len,m.size()); CHECKP("C15",!len||!memcmp(p,m.data(),len),"content","after %s the content of %zu bytes is wrong from byte %zu on",on,len,(size_t)(std::mismatch(m.begin(),m.end(),p).first-m.begin())); if(len&&strcmp(on,"shorten")&&rc==0) CHECKP("C15",p[len]==0,"termination","after %s the content of %zu bytes is not terminated",on,len); }
  if(s) LIBVOID(u_string_free(s)); if(b) LIBVOID(u_buf_free(b)); check_balance("large strings and buffers"); }
static Reg r2("bulk-strings",{"C15"},scen_c15,-10);

namespace { std::map<int,int> freed; void hvf(void*v){ freed[(int)((char*)v-(char*)cells)]++; } std::vector<std::pair<int,int>>*hs; int hkv(const void*k,const void*v){ hs->push_back({atoi((const char*)k+1),(int)((const char*)v-cells)}); return 0; } }
static void big_map(const char*P,bool bounded){ baseline(); large_run(); freed.clear(); Gen g; bool wide=draw(6)==5; size_t n=bounded?count():wide?100+draw(300):count64(), max=bounded?count()/2+1:0; bool linear=draw(3)==2; if(linear) n=200+n%300; size_t buckets=wide?65536+draw(40000):draw(2)?1:draw(600)+1; if(wide) probe("many-buckets"); int pol=bounded?1+draw(4):0; std::map<int,u64> cnt; auto prio=[](int v){ return (v*7919)%1009; }; u_hmap_opts_t*o=NULL; u_hmap_t*h=NULL; { NoFault nf; if(u_hmap_opts_new(&o)) end_run(); u_hmap_opts_set_size(o,buckets); if(linear) u_hmap_opts_set_type(o,U_HMAP_TYPE_LINEAR); u_hmap_opts_set_policy(o,pol==0?U_HMAP_PCY_NONE:pol==1?U_HMAP_PCY_FIFO:pol==2?U_HMAP_PCY_LRU:pol==3?U_HMAP_PCY_LFU:U_HMAP_PCY_CUSTOM); if(pol==4) u_hmap_opts_set_policy_cmp(o,[](void*a,void*b)->int{ int x=((int)((const char*)a-cells)*7919)%1009,y=((int)((const char*)b-cells)*7919)%1009; return x<y?-1:x>y; }); if(bounded) u_hmap_opts_set_max(o,max); u_hmap_opts_set_val_type(o,U_HMAP_OPTS_DATATYPE_POINTER); u_hmap_opts_set_val_freefunc(o,hvf); if(u_hmap_easy_new(o,&h)) end_run(); u_hmap_opts_free(o); }
  trace("op %s map, %zu puts, limit %zu policy %d",linear?"linear":"chained",n,max,pol); std::map<int,int> m; std::vector<int> order; /* FIFO / LRU, oldest first */ auto touch=[&](int k){ auto i=std::find(order.begin(),order.end(),k); if(i!=order.end()) order.erase(i); order.push_back(k); };
  int vid=0; for(size_t i=0;i<n;i++){ char k[24]; int id=g(n*2); snprintf(k,24,"k%d",id); u32 op=g(10); u64 h0=hard_faults(); if(op<7&&vid<79990){ int v=++vid; int rc=LIBCALL(u_hmap_easy_put(h,k,&cells[v])); if(m.count(id)){ CHECKP(P,rc!=0,"hmap-overwrite","putting the existing key %d succeeded",id); freed.erase(v); continue; } if(rc){ CHECKP(P,hard_faults()>h0,"hmap-refused","putting the new key %d into a map of %zu failed although memory was available",id,m.size()); freed.erase(v); continue; }
      if(bounded&&m.size()>=max){ int vk=-1; if(pol<3) vk=order.front(); else { CHECKP(P,freed.size()==1,"hmap-victim","the full map of %zu discarded %zu entries",m.size(),freed.size()); for(auto&e:m) if(freed.count(e.second)) vk=e.first; CHECKP(P,vk>=0,"hmap-victim","the full map of %zu discarded a value it does not hold",m.size()); for(auto&e:m) CHECKP(P,pol==3?cnt[e.first]>=cnt[vk]:prio(e.second)>=prio(m[vk]),"hmap-victim","the full map of %zu discarded entry %d (%llu), entry %d (%llu) should have gone before",m.size(),vk,(unsigned long long)(pol==3?cnt[vk]:prio(m[vk])),e.first,(unsigned long long)(pol==3?cnt[e.first]:prio(e.second))); cnt.erase(vk); }
        CHECKP(P,freed.size()==1&&freed.count(m[vk]),"hmap-victim","the full map of %zu did not discard its %s entry (%d)",m.size(),pol==1?"oldest":"least recently used",vk); freed.clear(); if(pol<3) order.erase(order.begin()); m.erase(vk); } CHECKP(P,freed.empty(),"hmap-freed","putting a new key released a value"); m[id]=v; cnt[id]=0; if(bounded&&pol<3) order.push_back(id); }
    else if(op<9){ void*v=LIBCALL(u_hmap_easy_get(h,k)); CHECKP(P,m.count(id)?v==&cells[m[id]]:!v,"hmap-get","key %d gives a wrong value in a map of %zu",id,m.size()); if(pol==2&&v) touch(id); if(pol==3&&v){ cnt[id]++; if(g(30)==0){ int more=g(4)?g(300)+1:65000+g(1100); for(int q=0;q<more;q++){ void*w=LIBCALL(u_hmap_easy_get(h,k)); CHECKP(P,w==v,"hmap-get","key %d gives another value the next time",id); } cnt[id]+=more; probe("frequent-key"); } } }
    else { int rc=LIBCALL(u_hmap_easy_del(h,k)); CHECKP(P,(rc==0)==(m.count(id)>0),"hmap-del","deleting %s key %d returned %d",m.count(id)?"the present":"the absent",id,rc); if(!rc){ CHECKP(P,freed.size()==1&&freed.count(m[id]),"hmap-freed","deleting released the wrong values"); freed.clear(); m.erase(id); cnt.erase(id); auto j=std::find(order.begin(),order.end(),id); if(j!=order.end()) order.erase(j); } } }
  NoFault nf; std::vector<std::pair<int,int>> s; hs=&s; u_hmap_foreach_keyval(h,hkv); std::sort(s.begin(),s.end()); std::vector<std::pair<int,int>> w(m.begin(),m.end()); CHECKP(P,s==w,"hmap-content","the map shows %zu entries, %zu are expected (or others)",s.size(),w.size()); static size_t nv; nv=0; u_hmap_foreach(h,[](const void*)->int{ nv++; return 0; }); CHECKP(P,nv==w.size(),"hmap-content","u_hmap_foreach visits %zu of %zu values",nv,w.size()); nv=0; u_hmap_foreach_arg(h,[](const void*,const void*a)->int{ ++*(size_t*)a; return 0; },&nv); CHECKP(P,nv==w.size(),"hmap-content","u_hmap_foreach_arg visits %zu of %zu values",nv,w.size()); CHECKP(P,u_hmap_count(h)==(ssize_t)w.size(),"hmap-content","u_hmap_count is %zd with %zu entries",u_hmap_count(h),w.size()); if(!bounded) for(auto&e:m){ char k[24]; snprintf(k,24,"k%d",e.first); CHECKP(P,u_hmap_easy_get(h,k)==&cells[e.second],"hmap-get","key %d can't be retrieved at the end",e.first); }
  freed.clear(); if(draw(2)) u_hmap_easy_clear(h); u_hmap_easy_free(h); CHECKP(P,freed.size()==m.size(),"hmap-freed","releasing a map of %zu released %zu values",m.size(),freed.size()); for(auto&e:freed) CHECKP(P,e.second==1,"hmap-freed","a value was released %d times",e.second); check_balance("large maps"); }
// keys and values of more bytes than 8 or 16 bits can count; two keys may differ in any one byte
static size_t oksz; static size_t ohash(const void*k,size_t n){ size_t h=0; for(size_t i=0;i<oksz;i+=7) h=h*131+((const u8*)k)[i]; return h%n; } static int ocmp(const void*a,const void*b){ return memcmp(a,b,oksz); }
static size_t opsz(){ static const u32 c[]={255,256,257,300,511,512,65535,65536,65537,66000}; return c[draw(10)]; }
static void big_opaque(const char*P,bool tree){ baseline(); large_run(); Gen g; oksz=opsz(); size_t vsz=opsz(); probe("wide-keys"); u_hmap_opts_t*o=NULL; u_hmap_t*h=NULL; u_bst_t*b=NULL; { NoFault nf; if(tree){ if(u_bst_new(draw(2)?U_BST_OPT_NONE:U_BST_OPT_RANDOMIZED,&b)) end_run(); u_bst_set_keyattr(b,U_BST_TYPE_OPAQUE,oksz); u_bst_set_valattr(b,U_BST_TYPE_OPAQUE,vsz); u_bst_set_cmp(b,ocmp); } else { if(u_hmap_opts_new(&o)) end_run(); u_hmap_opts_set_val_type(o,U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_key_type(o,U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_key_sz(o,oksz); u_hmap_opts_set_val_sz(o,vsz); u_hmap_opts_set_hashfunc(o,ohash); u_hmap_opts_set_compfunc(o,ocmp); if(draw(2)) u_hmap_opts_set_type(o,U_HMAP_TYPE_LINEAR); u_hmap_opts_set_size(o,64); if(u_hmap_new(o,&h)) end_run(); u_hmap_opts_free(o); } }
  std::map<std::string,std::string> m; std::string base=bytes(g,oksz); size_t n=2+draw(10); trace("op %zu entries of %zu and %zu bytes",n,oksz,vsz); for(size_t i=0;i<n;i++){ std::string k=base; k[draw(2)?oksz-1-draw(4):g(oksz)]='A'+g(26); if(m.count(k)) continue; std::string v=bytes(g,vsz); u64 h0=hard_faults(); int rc; if(tree) rc=LIBCALL(u_bst_push(b,k.data(),v.data())); else { u_hmap_o_t*ob=LIBCALL(u_hmap_o_new(h,k.data(),v.data())); if(!ob){ CHECKP(P,hard_faults()>h0,"opaque-refused","an entry of %zu and %zu bytes can't be made",oksz,vsz); continue; } rc=LIBCALL(u_hmap_put(h,ob,NULL)); } CHECKP(P,rc==0||hard_faults()>h0,"opaque-refused","an entry of %zu and %zu bytes can't be inserted",oksz,vsz); if(!rc) m[k]=v; }
  NoFault nf; for(auto&e:m){ const void*k=NULL,*v=NULL; if(tree){ u_bst_node_t*x=u_bst_search(b,e.first.data()); if(x){ k=u_bst_node_key(x); v=u_bst_node_val(x); } } else { u_hmap_o_t*ob=NULL; if(u_hmap_get(h,e.first.data(),&ob)==0&&ob){ k=u_hmap_o_get_key(ob); v=u_hmap_o_get_val(ob); } } CHECKP(P,k&&v,"opaque-lost","an entry of %zu and %zu bytes is lost",oksz,vsz); CHECKP(P,!memcmp(k,e.first.data(),oksz)&&!memcmp(v,e.second.data(),vsz),"opaque-bytes","an entry of %zu and %zu bytes is stored with other bytes",oksz,vsz); }
  if(tree) u_bst_free(b); else u_hmap_free(h); check_balance("entries of many bytes"); }
static Reg r12("bulk-wide-hmap",{"C12"},[]{ big_opaque("C12",false); },-10); static Reg r13("bulk-wide-bst",{"C16"},[]{ big_opaque("C16",true); },-10);
static Reg r3("bulk-hmap",{"C12"},[]{ big_map("C12",false); },-3); static Reg r4("bulk-hmap-bounded",{"C13"},[]{ big_map("C13",true); },-3);

static void scen_c14(){ baseline(); large_run(); Gen g; static const int os[]={U_RB_OPT_IMPL_MALLOC,U_RB_OPT_IMPL_MALLOC|U_RB_OPT_USE_CONTIGUOUS_MEM,U_RB_OPT_USE_CONTIGUOUS_MEM}; int opt=os[draw(3)]; size_t cap=bigsize(); u_rb_t*rb=NULL; { NoFault nf; if(u_rb_create(cap,opt,&rb)) end_run(); } size_t sz=u_rb_size(rb); CHECKP("C14",sz>=cap&&(opt==U_RB_OPT_USE_CONTIGUOUS_MEM||sz==cap),"rb-size","a ring of %zu bytes has %zu",cap,sz); u64 w=0,r=0; trace("op ring of %zu opts %d",sz,opt); auto pat=[](u64 p){ return (char)(p*7+(p>>8)*13+(p>>16)*29); }; std::vector<char> buf(sz+8); size_t n=0;
  while(n<20&&more(10)){ n++; size_t ready=w-r, room=sz-ready; if(draw(2)){ size_t k=draw(3)==2?room:draw(sz)+1; for(size_t i=0;i<k;i++) buf[i]=pat(w+i); ssize_t x=LIBCALL(u_rb_write(rb,buf.data(),k)); CHECKP("C14",x==(ssize_t)std::min(k,room),"rb-write-count","writing %zu bytes with room for %zu accepted %zd",k,room,x); w+=x; }
    else { size_t k=draw(3)==2?ready:draw(sz)+1; ssize_t x=LIBCALL(u_rb_read(rb,buf.data(),k)); CHECKP("C14",x==(ssize_t)std::min(k,ready),"rb-read-count","reading %zu bytes with %zu ready gave %zd",k,ready,x); for(ssize_t i=0;i<x;i++) CHECKP("C14",buf[i]==pat(r+i),"rb-data","byte %llu of the stream is wrong",(unsigned long long)(r+i)); r+=x; }
    CHECKP("C14",u_rb_ready(rb)==w-r&&u_rb_avail(rb)==sz-(w-r),"rb-counters","ready=%zu avail=%zu with %llu of %zu bytes in the ring",u_rb_ready(rb),u_rb_avail(rb),(unsigned long long)(w-r),sz); }
  LIBVOID(u_rb_free(rb)); check_balance("a large ring","C14","C14"); }
static Reg r5("bulk-ring",{"C14"},scen_c14,-10);

static void scen_c17(){ baseline(); large_run(); Gen g; size_t n=count64(); bool obj=draw(2), decode=draw(2), bignest=draw(4)==3; u_json_t*j=NULL; std::vector<std::string> v; std::string t; for(size_t i=0;i<n;i++) v.push_back(std::to_string(g(1<<30)));
  auto key=[](size_t i){ return "k"+std::to_string(i); }; if(decode||bignest){ t=obj?"{":"["; for(size_t i=0;i<n;i++){ if(i) t+=g(3)?",":", "; if(obj) t+="\""+key(i)+"\":"; t+=v[i]; } t+=obj?"}":"]"; u64 h0=hard_faults(); int rc=LIBCALL(u_json_decode(t.c_str(),&j)); trace("op decode %zu bytes, %zu members=%d",t.size(),n,rc); if(rc){ CHECKP("C17",hard_faults()>h0,"refused","decoding %zu members failed although memory was available",n); check_balance("decoding"); return; } }
  else { { NoFault nf; if(obj?u_json_new_object("",&j):u_json_new_array("",&j)) end_run(); } trace("op build %zu members",n); std::vector<std::string> ok; for(size_t i=0;i<n;i++){ u_json_t*x=NULL; u64 h0=hard_faults(); int rc=LIBCALL(u_json_new_number(key(ok.size()).c_str(),v[i].c_str(),&x)); if(rc){ CHECKP("C17",hard_faults()>h0,"refused","u_json_new_number failed"); continue; } NoFault nf; CHECKP("C17",u_json_add(j,x)==0,"refused","adding member %zu failed",i); ok.push_back(v[i]); } v=ok; n=v.size(); }
  bool frozen=false; if(draw(2)){ u64 h0=hard_faults(); int rc=LIBCALL(u_json_index(j)); trace("op freeze=%d",rc); CHECKP("C17",rc==0||hard_faults()>h0,"freeze","indexing failed although memory was available"); frozen=rc==0; }
  NoFault nf; size_t i=0; u_json_it_t it; u_json_it(u_json_child_first(j),&it); u_json_t*c; while((c=u_json_it_next(&it))){ CHECKP("C17",i<n&&v[i]==S_(u_json_get_val(c)),"iterate","member %zu of %zu is wrong",i,n); i++; } CHECKP("C17",i==n,"iterate","iteration ends after %zu of %zu members",i,n); if(!obj) CHECKP("C17",u_json_array_count(j)==n,"array_count","u_json_array_count is %u instead of %zu",u_json_array_count(j),n);
  for(int k=0;k<60;k++){ size_t x=k<2?n-k:g(n+1); if(obj){ const char*p=u_json_get_val(u_json_cache_get(j,("."+key(x)).c_str())); std::string e=x<n?v[x]:"(null)"; if(frozen) CHECKP("C17",S_(p)==e,"index","looking up member %zu of %zu gives %s instead of %s",x,n,S_(p).c_str(),e.c_str()); } else { u_json_t*y=u_json_array_get_nth(j,x); CHECKP("C17",x<n?y&&v[x]==S_(u_json_get_val(y)):!y,"array_get_nth","element %zu of %zu is wrong",x,n); if(frozen){ const char*p=u_json_cache_get_val(j,("[" +std::to_string(x)+"]").c_str()); CHECKP("C17",x<n?S_(p)==v[x]:!p,"index","looking up element %zu of %zu gives %s",x,n,S_(p).c_str()); } } }
  char*s=NULL; CHECKP("C17",u_json_encode(j,&s)==0&&s,"encode-failed","encoding %zu members failed",n); std::string e=obj?"{":"[", a; for(size_t x=0;x<n;x++){ if(x) e+=","; if(obj) e+="\""+key(x)+"\":"; e+=v[x]; } e+=obj?"}":"]"; bool q=false; for(char*p=s;*p;p++){ if(*p=='"') q=!q; if(q||!isspace((u8)*p)) a+=*p; } CHECKP("C17",a==e,"encode-value","%zu members are encoded wrongly (%zu bytes instead of %zu)",n,a.size(),e.size()); xfree(s); u_json_free(j); check_balance("large JSON values","C17","C17"); }
static Reg r6("bulk-json",{"C17"},scen_c17,-4);

static std::vector<std::string> walked; static void wcb(u_config_t*n){ walked.push_back(S_(u_config_get_key(n))); } static int ccmp(u_config_t**a,u_config_t**b){ return strcmp(u_config_get_key(*a),u_config_get_key(*b)); }
static void scen_c08(){ fs_mkdir("/etc"); baseline(); large_run(); Gen g; size_t n=count()/2; bool load=draw(2); u_config_t*c=NULL; std::map<std::string,std::string> m; std::string t; std::vector<std::string> order; trace("op %s %zu keys",load?"load":"set",n); bool longv=draw(3)==2;
  if(!load){ NoFault nf; if(u_config_create(&c)) end_run(); } for(size_t i=0;i<n;i++){ std::string k="k"+std::to_string(i), v=longv&&(g(400)==0||i==n/2)?bytes(g,1+g(140000)):bytes(g,1+g(30)); if(g(40)==0) k+=bytes(g,250+g(300)); if(g(9)==0&&v.size()>2) v[1+g(v.size()-2)]='#'; if(g(3)==0){ int sn=g(20); k="sec"+std::to_string(sn)+(sn>16?std::string(255+sn*3,'s'):"")+"."+k; } u64 h0=hard_faults(); int rc=0; if(load){ std::string ev; for(char c:v){ if(c=='#') ev+='\\'; ev+=c; } t+=k+" "+ev+"\n"; } else rc=LIBCALL(u_config_set_key(c,k.c_str(),v.c_str())); if(rc){ CHECKP("C08",hard_faults()>h0,"edit-refused","setting key %zu failed although nothing went wrong",i); continue; } m[k]=v; order.push_back(k); }
  if(load){ u64 h0=hard_faults(); int rc; if(draw(2)){ fs_put("/etc/main",t); rc=LIBCALL(u_config_load_from_file("/etc/main",&c)); } else rc=LIBCALL(u_config_load_from_buf((char*)t.c_str(),t.size()+1,&c)); if(rc){ CHECKP("C07",hard_faults()>h0,"load-refused","loading %zu keys (%zu bytes) failed although nothing went wrong",n,t.size()); check_balance("loading a large configuration","C07"); return; } }
  auto check=[&](u_config_t*c,const char*w){ NoFault nf; for(auto&e:m){ const char*v=u_config_get_subkey_value(c,e.first.c_str()); CHECKP("C07,C08",v&&e.second==v,"lookup","%s: %s (%zu characters) is %s of %zu characters",w,e.first.c_str(),e.second.size(),v?"a value":"nothing",v?strlen(v):0); } size_t top=0; std::set<std::string> tops; for(auto&e:m) tops.insert(e.first.substr(0,e.first.find('.'))); while(u_config_get_child_n(c,NULL,top)) top+=97; while(top&&!u_config_get_child_n(c,NULL,top-1)) top--; CHECKP("C07,C08",top==tops.size(),"children","%s: %zu children at the top instead of %zu",w,top,tops.size()); if(more(4)){ walked.clear(); u_config_walk(c,draw(2)?U_CONFIG_WALK_PREORDER:U_CONFIG_WALK_POSTORDER,wcb); std::set<std::string> all=tops; size_t nn=tops.size(); for(auto&e:m) if(e.first.find('.')!=std::string::npos){ nn++; all.insert(e.first.substr(e.first.find('.')+1)); } CHECKP("C08",walked.size()==nn&&std::set<std::string>(walked.begin(),walked.end())==all,"walk","%s: walking visits %zu of %zu nodes (or others)",w,walked.size(),nn); } if(more(4)){ CHECKP("C08",u_config_sort_children(c,ccmp)==0,"sort-refused","%s: sorting %zu children failed",w,tops.size()); size_t x=0; for(auto&e:tops){ if(x%17==0||x+3>tops.size()){ u_config_t*y=u_config_get_child_n(c,NULL,x); CHECKP("C08",y&&e==S_(u_config_get_key(y)),"sort","%s: child %zu of %zu is %s after sorting instead of %s",w,x,tops.size(),y?S_(u_config_get_key(y)).c_str():"(none)",e.c_str()); } x++; } } };
  check(c,load?"after loading":"after setting"); { size_t cap=t.size()*3+n*200+100000; char*b=(char*)malloc(cap); u64 h0=hard_faults(); int rc=LIBCALL(u_config_save_to_buf(c,b,cap)); CHECKP("C08",rc==0||hard_faults()>h0||!load,"save-refused","saving %zu keys into %zu bytes failed",n,cap); if(rc==0){ u_config_t*d=NULL; NoFault nf; CHECKP("C08",u_config_load_from_buf(b,strlen(b)+1,&d)==0,"round-trip","a saved tree of %zu keys can't be loaded",n); check(d,"after saving and loading"); u_config_free(d); } free(b); } LIBVOID(u_config_free(c)); check_balance("a large configuration","C07"); }
static Reg r7("bulk-config",{"C07","C08"},scen_c08,-4);

static void scen_c09(){ fs_mkdir("/etc"); baseline(); large_run(); Gen g; bool mem=draw(2); size_t n=mem?count64():count(); if(n>60000) large_run(); std::string t; std::vector<std::string> u,p; for(size_t i=0;i<n;i++){ u.push_back("user"+std::to_string(i)); p.push_back(bytes(g,1+g(20))); t+=u[i]+":"+p[i]+(g(2)?":"+bytes(g,g(30)+1):"")+"\n"; } fs_put("/etc/passwd",t); fs_touch("/etc/passwd",1000); u_pwd_t*d=NULL; { NoFault nf; if(u_pwd_init_file("/etc/passwd",NULL,0,mem,&d)) end_run(); } trace("op database of %zu, %s",n,mem?"in memory":"direct");
  auto ask=[&](size_t i,bool good){ u64 h0=hard_faults(); int rc=LIBCALL(u_pwd_auth_user(d,i<n?u[i].c_str():"user999999",good?(i<n?p[i].c_str():"x"):"wrong password")); bool err=hard_faults()>h0; if(rc==0) CHECKP("C09",good&&i<n,"false-authentication","user %zu of %zu was authenticated with a wrong password",i,n); else CHECKP("C09",!(good&&i<n)||err,"false-denial","user %zu of %zu was denied although nothing went wrong",i,n); }; for(int k=0;k<12;k++) ask(k==0?n-1:k==1?n:k==2?0:g(n),g(4)!=0);
  { size_t i=g(n); p[i]="changed"; t.clear(); for(size_t k=0;k<n;k++) t+=u[k]+":"+p[k]+"\n"; fs_put("/etc/passwd",t); fs_touch("/etc/passwd",2000); faults_heal(); ask(i,true); ask(i,false); for(int k=0;k<4;k++) ask(g(n),true); } LIBVOID(u_pwd_term(d)); check_balance("a large password database"); }
static Reg r8("bulk-pwd",{"C09"},scen_c09,-2);

static void scen_c10(){ fs_mkdir("/etc"); env.clear(); fs_put("/etc/b.conf","export ..."); baseline(); large_run(); Gen g; size_t n=count64(); std::map<std::string,std::string> w; std::string out; for(size_t i=0;i<n;i++){ std::string k=(g(4)?"PFX_":"OTH_")+std::to_string(i), v=bytes(g,n>60000?g(9):g(800)==0?bigsize():g(60)); w[k]=v; out+=k+"="+v+"\n"; } on_popen=[&](const std::string&,PopenScript&ps){ ps.out=out; ps.status=0; ps.end_errno=0; return true; }; u64 h0=hard_faults(); int rc=LIBCALL(u_env_init("PFX_","/etc/b.conf")); bool err=hard_faults()>h0; on_popen=nullptr; trace("op u_env_init: %zu variables, %zu bytes=%d",n,out.size(),rc);
  if(rc) CHECKP("C10",err,"false-failure","u_env_init failed although the child ended well"); else for(auto&e:w){ bool mine=e.first.compare(0,4,"PFX_")==0; CHECKP("C10",mine?env.count(e.first)&&env[e.first]==e.second:!env.count(e.first),mine?"not-set":"foreign","variable %s (%zu characters) is wrong",e.first.c_str(),e.second.size()); } check_balance("a large environment","C10"); }
static Reg r9("bulk-env",{"C10"},scen_c10,-4);

static void scen_text(){ baseline(); large_run(); Gen g; if(draw(2)){ size_t n=count64(); std::string s; std::vector<std::string> v; static const char dl[]=",;"; for(size_t i=0;i<n;i++){ if(i) s+=dl[g(2)]; std::string x=bytes(g,1+g(g(100)?12:5000)); v.push_back(x); s+=x; } char**tv=NULL; size_t nt=0; u64 h0=hard_faults(); int rc=LIBCALL(u_strtok(s.c_str(),",;",&tv,&nt)); bool err=hard_faults()>h0; trace("op u_strtok %zu tokens, %zu bytes=%d",n,s.size(),rc); if(rc) CHECKP("C23",err,"strtok-refused","splitting %zu tokens failed although memory was available",n); else { CHECKP("C23",nt==n,"strtok-count","%zu tokens instead of %zu",nt,n); for(size_t i=0;i<n;i++) CHECKP("C23",v[i]==S_(tv[i]),"strtok-token","token %zu of %zu is wrong",i,n); LIBVOID(u_strtok_cleanup(tv,nt)); } }
  else { std::string s=bytes(g,bigsize()); u_lexer_t*l=NULL; u64 h0=hard_faults(); int rc=LIBCALL(u_lexer_new(s.c_str(),&l)); trace("op lexer of %zu bytes=%d",s.size(),rc); if(rc) CHECKP("C23",hard_faults()>h0,"lexer-refused","a lexer of %zu bytes can't be made",s.size()); else { size_t p=0; while(p<s.size()){ size_t k=1+g(s.size()/3); while(k--&&p<s.size()){ char c=0; CHECKP("C23",LIBCALL(u_lexer_next(l,&c))==0,"lexer-next","u_lexer_next failed at %zu of %zu",p,s.size()); p++; } CHECKP("C23",u_lexer_pos(l)==p&&(u_lexer_eot(l)!=0)==(p>=s.size())&&S_(u_lexer_lookahead(l))==s.substr(p),"lexer-position","the lexer is at %zu instead of %zu",u_lexer_pos(l),p); } LIBVOID(u_lexer_free(l)); } } check_balance("large texts","","C23"); }
static Reg r10("bulk-text",{"C23"},scen_text,-4);

static void scen_io(){ fs_mkdir("/a"); baseline(); large_run(); Gen g; std::string D=bytes(g,bigsize()*(1+draw(3))); int api=draw(8); size_t L=D.size(); u64 h0=hard_faults(); auto err=[&]{ return hard_faults()>h0; };
  if(api==0){ int fd=fd_stream_in(D,0,true); std::vector<char> b(L+9); ssize_t r=LIBCALL(u_read(fd,b.data(),L+9)); trace("op u_read of %zu=%zd",L,r); if(!err()) CHECKP("C01",r==(ssize_t)L&&!memcmp(b.data(),D.data(),L),"read-data","reading %zu bytes gave %zd or other bytes",L,r); else CHECKP("C01",r==-1,"u_read-error","reading %zu bytes failed, yet %zd",L,r); fd_close(fd); }
  else if(api==1){ int fd=fd_stream_out(); ssize_t r=LIBCALL(u_write(fd,D.data(),L)); trace("op u_write of %zu=%zd",L,r); std::string o=fd_taken(fd); CHECKP("C01",D.compare(0,o.size(),o)==0&&r==(o.size()==L?(ssize_t)L:-1)&&(o.size()==L||err()),"write-data","writing %zu bytes: %zu arrived, result %zd",L,o.size(),r); fd_close(fd); }
  else if(api<=3){ fs_put("/a/in",D); u_buf_t*ub=NULL; if(api==2){ { NoFault nf; if(u_buf_create(&ub)) end_run(); } h0=hard_faults(); int rc=LIBCALL(u_buf_load(ub,"/a/in")); trace("op u_buf_load of %zu=%d",L,rc); if(rc) CHECKP("C05",err(),"load-refused","u_buf_load of %zu bytes failed",L); else CHECKP("C05",u_buf_len(ub)==(ssize_t)L&&!memcmp(u_buf_ptr(ub),D.data(),L),"load-data","u_buf_load of %zu bytes stored something else",L); u_buf_free(ub); } else { char*b=NULL; size_t n=0; int rc=LIBCALL(u_load_file("/a/in",draw(2)?0:L-1+draw(3),&b,&n)); trace("op u_load_file of %zu=%d",L,rc); if(rc==0){ CHECKP("C05",n==L&&!memcmp(b,D.data(),L),"load-data","u_load_file of %zu bytes gave something else",L); u_free(b); } } }
  else if(api<=5){ int rc; if(api==4) rc=LIBCALL(u_data_dump((char*)D.data(),L,"/a/out")); else { u_buf_t*ub=NULL; { NoFault nf; if(u_buf_create(&ub)||u_buf_append(ub,D.data(),L)) end_run(); } h0=hard_faults(); rc=LIBCALL(u_buf_save(ub,"/a/out")); u_buf_free(ub); } trace("op save of %zu=%d",L,rc); if(rc==0) CHECKP("C04",fs_data("/a/out")==D,"false-success","saving %zu bytes succeeded, the file holds %zu (or others)",L,fs_data("/a/out").size()); else CHECKP("C04",err(),"false-failure","saving %zu bytes failed",L); }
  else { fs_put("/a/in",D); std::string dst=draw(2)?"/b/out":"/a/out"; int rc=api==6?LIBCALL(u_copy("/a/in",dst.c_str())):LIBCALL(u_move("/a/in",dst.c_str())); trace("op %s of %zu=%d",api==6?"copy":"move",L,rc); bool s=fs_exists("/a/in")&&fs_data("/a/in")==D, d=fs_exists(dst)&&fs_data(dst)==D; if(rc==0) CHECKP("C06",d&&(api==6?s:!fs_exists("/a/in")),"incomplete","%s of %zu bytes reported success, but it is not done",api==6?"copying":"moving",L); else CHECKP("C06",err()&&s,"lost-data","a failed %s of %zu bytes lost data or had no reason to fail",api==6?"copy":"move",L); }
  check_balance("large transfers"); }
static Reg r11("bulk-io",{"C01","C04","C05","C06"},scen_io,-10);

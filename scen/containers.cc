// Lists, arrays, priority queues, binary search trees against models (C16)
#include "common.h"
#include <limits>
#include <complex.h>
#undef I

// ------------------------------------------------------------------ list
static void scen_list(){
  baseline(); u_list_t*l=NULL; std::vector<void*> m; static char cells[64]; auto val=[&]{ return (void*)&cells[draw(6)]; };
  { u64 h0=hard_faults(); if(LIBCALL(u_list_create(&l))){ CHECKP("C16",hard_faults()>h0,"list-refused","u_list_create failed although memory was available"); check_balance("u_list_create"); return; } }
  auto check=[&](const char*op){ NoFault nf; CHECKP("C16",u_list_count(l)==m.size(),"list-count","after %s the list counts %zu elements instead of %zu",op,u_list_count(l),m.size());
    void*it=(void*)0x5a5a5a; size_t i=0; for(void*p=u_list_first(l,&it);p;p=u_list_next(l,&it),i++){ CHECKP("C16",i<m.size()&&p==m[i],"list-order","after %s iteration gives element %td at position %zu",op,(char*)p-cells,i); } CHECKP("C16",i==m.size(),"list-order","after %s iteration ends after %zu of %zu elements",op,i,m.size()); CHECKP("C16",u_list_next(l,&it)==NULL,"list-order","after %s the exhausted iterator gives another element",op); CHECKP("C16",u_list_first(l,NULL)==(m.empty()?NULL:m[0]),"list-order","after %s the first element is wrong",op);
    for(size_t k=0;k<m.size();k++) CHECKP("C16",u_list_get_n(l,k)==m[k],"list-index","after %s element %zu is wrong",op,k); CHECKP("C16",u_list_get_n(l,m.size())==NULL&&u_list_get_n(l,m.size()+1)==NULL,"list-index","after %s an element beyond the end is found",op); };
  size_t nops=0; while(nops<40&&more(12)){ Span sp; nops++; u64 h0=hard_faults(); int rc; const char*nm="?"; bool err;
    switch(draw(9)){
      case 0: case 1: case 2: { void*v=val(); nm="u_list_add"; rc=LIBCALL(u_list_add(l,v)); err=hard_faults()>h0; CHECKP("C16",rc==0||err,"list-refused","u_list_add failed although memory was available"); if(!rc) m.push_back(v); break; }
      case 3: case 4: { void*v=val(); size_t n=draw(6)?draw(m.size()+1):m.size()+1+draw(2); nm="u_list_insert"; rc=LIBCALL(u_list_insert(l,v,n)); err=hard_faults()>h0; CHECKP("C16",(rc==0)<=(n<=m.size()),"list-bounds","inserting at position %zu of %zu succeeded",n,m.size()); CHECKP("C16",rc==0||err||n>m.size(),"list-refused","u_list_insert failed although memory was available"); if(!rc) m.insert(m.begin()+n,v); break; }
      case 5: { void*v=val(); nm="u_list_del"; rc=LIBCALL(u_list_del(l,v)); auto i=std::find(m.begin(),m.end(),v); CHECKP("C16",(rc==0)==(i!=m.end()),"list-del","u_list_del of %s element returned %d",i!=m.end()?"a present":"an absent",rc); if(i!=m.end()) m.erase(i); break; }
      case 6: case 7: { size_t n=draw(6)?draw(m.size()+1):m.size()+draw(2); void*o=(void*)1; bool want=draw(3)!=2; nm="u_list_del_n"; rc=LIBCALL(u_list_del_n(l,n,want?&o:NULL)); CHECKP("C16",(rc==0)==(n<m.size()),"list-del","u_list_del_n(%zu) of %zu returned %d",n,m.size(),rc); if(!rc){ CHECKP("C16",!want||o==m[n],"list-del","u_list_del_n handed out the wrong element"); m.erase(m.begin()+n); } break; }
      default: nm="u_list_clear"; rc=LIBCALL(u_list_clear(l)); CHECKP("C16",rc==0,"list-refused","u_list_clear failed"); m.clear(); }
    trace("op %s=%d n=%zu",nm,rc,m.size()); check(nm); }
  LIBVOID(u_list_free(l)); check_balance("list operations");
}
static Reg r1("list",{"C16"},scen_list,1);

// ------------------------------------------------------------------ array
template<class T> static T mkval(){ static const i64 sp[]={1,0,-1,127,-128,255,32767,65535,2147483647,-2147483648ll}; return draw(3)?(T)(i64)draw(1<<20):(T)sp[draw(10)]; }
template<> void* mkval<void*>(){ static char c[16]; return draw(4)?(void*)&c[draw(16)]:NULL; }
template<class T,class SET,class GET> static void run_array(u_array_type_t type,SET set,GET get,const char*tn){
  u_array_t*a=NULL; std::map<size_t,T> m; size_t n0=draw(3)==0?0:draw(60)==59?hugesz():1+logu(7); 
  { u64 h0=hard_faults(); int rc=LIBCALL(u_array_create(type,n0,&a)); trace("op create %s %zu =%d",tn,n0,rc); if(rc){ CHECKP("C16",hard_faults()>h0||n0>1000000,"array-refused","u_array_create failed although memory was available"); return; } CHECKP("C16",n0<=1000000,"array-bounds","an array of %zu slots was created",n0); }
  size_t top=n0?n0:1; // slots certainly addressable
  auto check=[&](const char*op){ NoFault nf; for(auto&e:m){ T v; memset(&v,0x5a,sizeof v); int rc=get(a,e.first,&v); CHECKP("C16",rc==0&&v==e.second,"array-value","after %s slot %zu of the %s array is lost or wrong (rc %d)",op,e.first,tn,rc); } };
  size_t nops=0; while(nops<30&&more(10)){ Span sp; nops++; u64 h0=hard_faults(); size_t idx; switch(draw(6)){ case 0: idx=draw(top); break; case 1: idx=top-1; break; case 2: idx=top; break; case 3: idx=top+draw(250); break; case 4: idx=draw(20)?logu(12):hugesz(); break; default: idx=m.empty()?0:std::next(m.begin(),draw(m.size()))->first; }
    bool huge=idx>1000000; 
    switch(draw(4)){
      case 0: case 1: { T v=mkval<T>(), old; memset(&old,0x5a,sizeof old); int rc=set(a,idx,v,&old); bool err=hard_faults()>h0; trace("op set %s[%zu]=%d",tn,idx,rc); CHECKP("C16",rc==0||err||huge,"array-refused","setting slot %zu failed although memory was available",idx); CHECKP("C16",!(huge&&rc==0),"array-bounds","setting slot %zu succeeded",idx);
        if(rc==0){ auto i=m.find(idx); T exp; memset(&exp,0,sizeof exp); if(i!=m.end()) exp=i->second; CHECKP("C16",old==exp,"array-old","setting slot %zu of the %s array reports a wrong old value (%s slot)",idx,tn,i!=m.end()?"set":"never set"); m[idx]=v; top=std::max(top,idx+1); } check("set"); break; }
      case 2: { T v; memset(&v,0x5a,sizeof v); int rc=get(a,idx,&v); trace("op get %s[%zu]=%d",tn,idx,rc); auto i=m.find(idx); if(idx<top) CHECKP("C16",rc==0,"array-get","slot %zu can't be read",idx); if(rc==0){ CHECKP("C16",!huge,"array-bounds","reading slot %zu succeeded",idx); T exp; memset(&exp,0,sizeof exp); if(i!=m.end()) exp=i->second; CHECKP("C16",v==exp,"array-value","reading %s slot %zu of the %s array gives a wrong value",i!=m.end()?"set":"never set",idx,tn); } break; }
      default: { int rc=LIBCALL(u_array_resize(a,idx)); bool err=hard_faults()>h0; trace("op resize %zu=%d",idx,rc); CHECKP("C16",rc==0||err||huge,"array-refused","growing to slot %zu failed although memory was available",idx); CHECKP("C16",!(huge&&rc==0),"array-bounds","growing to slot %zu succeeded",idx); if(rc==0) top=std::max(top,idx+1); check("resize"); }
    } }
  { NoFault nf; int iv=1,rc; long lv=1; void*pv=NULL; if(type!=U_ARRAY_TYPE_INT){ rc=LIBCALL(u_array_set_int(a,0,1,&iv)); CHECKP("C16",rc!=0,"array-type","an int was stored in a %s array",tn); rc=LIBCALL(u_array_get_int(a,0,&iv)); CHECKP("C16",rc!=0,"array-type","an int was read from a %s array",tn); } else { rc=LIBCALL(u_array_set_long(a,0,1,&lv)); CHECKP("C16",rc!=0,"array-type","a long was stored in a %s array",tn); } if(type!=U_ARRAY_TYPE_PTR){ rc=0; pv=LIBCALL(u_array_set_ptr(a,0,&lv,&rc)); CHECKP("C16",rc!=0&&!pv,"array-type","a pointer was stored in a %s array",tn); rc=0; pv=LIBCALL(u_array_get_ptr(a,0,&rc)); CHECKP("C16",rc!=0&&!pv,"array-type","a pointer was read from a %s array",tn); } check("a refused access"); }
  LIBVOID(u_array_free(a));
}
#define ARR(T,PFX,TY) run_array<T>(TY,[](u_array_t*a,size_t i,T v,T*o){ return LIBCALL(u_array_set##PFX(a,i,v,o)); },[](u_array_t*a,size_t i,T*o){ return LIBCALL(u_array_get##PFX(a,i,o)); },#T)
static void scen_array(){
  baseline();
  switch(draw(20)){
    case 0: ARR(int,_int,U_ARRAY_TYPE_INT); break; case 1: ARR(char,_char,U_ARRAY_TYPE_CHAR); break; case 2: ARR(unsigned char,_u_char,U_ARRAY_TYPE_U_CHAR); break; case 3: ARR(short,_short,U_ARRAY_TYPE_SHORT); break; case 4: ARR(unsigned short,_u_short,U_ARRAY_TYPE_U_SHORT); break; case 5: ARR(unsigned int,_u_int,U_ARRAY_TYPE_U_INT); break; case 6: ARR(long,_long,U_ARRAY_TYPE_LONG); break; case 7: ARR(unsigned long,_u_long,U_ARRAY_TYPE_U_LONG); break; case 8: ARR(float,_float,U_ARRAY_TYPE_FLOAT); break; case 9: ARR(double,_double,U_ARRAY_TYPE_DOUBLE); break; case 10: ARR(bool,_bool,U_ARRAY_TYPE_BOOL); break; case 11: ARR(long long,_long_long,U_ARRAY_TYPE_LONG_LONG); break; case 12: ARR(unsigned long long,_u_long_long,U_ARRAY_TYPE_U_LONG_LONG); break; case 13: ARR(intmax_t,_intmax,U_ARRAY_TYPE_INTMAX); break; case 14: ARR(uintmax_t,_u_intmax,U_ARRAY_TYPE_U_INTMAX); break; case 15: ARR(double _Complex,_double_complex,U_ARRAY_TYPE_DOUBLE_COMPLEX); break; case 16: ARR(float _Complex,_float_complex,U_ARRAY_TYPE_FLOAT_COMPLEX); break; case 17: ARR(long double,_long_double,U_ARRAY_TYPE_LONG_DOUBLE); break; case 18: ARR(long double _Complex,_long_double_complex,U_ARRAY_TYPE_LONG_DOUBLE_COMPLEX); break;
    default: run_array<void*>(U_ARRAY_TYPE_PTR,[](u_array_t*a,size_t i,void*v,void**o){ int rc=7; if(draw(4)==3){ // without result argument: NULL on failure
        u64 h=hard_faults(); void*p=LIBCALL(u_array_set_ptr(a,i,v,NULL)); *o=p; void*n=LIBCALL(u_array_get_ptr(a,i,&rc)); (void)h; return rc==0&&n==v?0:-1; } *o=LIBCALL(u_array_set_ptr(a,i,v,&rc)); CHECKP("C16",rc==0||rc==-1,"array-result","u_array_set_ptr left %d as its result",rc); return rc; },[](u_array_t*a,size_t i,void**o){ int rc=7; *o=LIBCALL(u_array_get_ptr(a,i,&rc)); CHECKP("C16",rc==0||rc==-1,"array-result","u_array_get_ptr left %d as its result",rc); if(draw(4)==3){ void*p=LIBCALL(u_array_get_ptr(a,i,NULL)); CHECKP("C16",p==*o,"array-result","u_array_get_ptr gives another value without a result argument"); } return rc; },"void*");
  }
  check_balance("array operations");
}
static Reg r2("array",{"C16"},scen_array,1);

// ------------------------------------------------------------------ priority queue
static void scen_pq(){
  baseline(); size_t cap=draw(8)?2+logu(5):draw(3)==2?hugesz():draw(2); u_pq_t*pq=NULL; u64 h0=hard_faults(); int rc=LIBCALL(u_pq_create(cap,&pq)); trace("op create %zu=%d",cap,rc);
  if(rc){ CHECKP("C16",hard_faults()>h0||cap<2||cap>(1u<<30),"pq-refused","u_pq_create(%zu) failed although memory was available",cap); check_balance("u_pq_create"); return; } if(cap<2) end_run(); CHECKP("C16",cap<(1u<<30),"pq-bounds","a queue of %zu elements was created",cap);
  std::multiset<std::pair<double,u64>> m; u64 seq=16; static const double sp[]={0,-1,1,1e300,-1e300,0.5}; size_t nops=0;
  auto maxk=[&]{ return m.rbegin()->first; };
  while(nops<80&&more(20)){ Span sp_; nops++; 
    switch(draw(5)){
      case 0: case 1: case 2: { double k=draw(4)?(double)draw(10):sp[draw(6)]; seq+=16; rc=LIBCALL(u_pq_push(pq,k,(void*)seq)); trace("op push %g=%d",k,rc); bool full=m.size()==cap; CHECKP("C16",full?rc==-2:rc==0,"pq-push","u_pq_push into a queue of %zu/%zu elements returned %d",m.size(),cap,rc); if(!rc) m.insert({k,seq}); break; }
      case 3: { if(m.empty()) break; double k=12345; u64 v=(u64)LIBCALL(u_pq_delmax(pq,draw(3)==2?NULL:&k)); if(k==12345){ for(auto&e:m) if(e.second==v) k=e.first; } trace("op delmax %g",k); CHECKP("C16",k==maxk(),"pq-order","u_pq_delmax gave priority %g although the best is %g",k,maxk()); auto i=m.find({k,v}); CHECKP("C16",i!=m.end(),"pq-value","u_pq_delmax gave an element not in the queue with priority %g",k); m.erase(i); break; }
      default: { if(m.empty()) break; double k=12345; u64 v=(u64)LIBCALL(u_pq_peekmax(pq,draw(4)==3?NULL:&k)); if(k==12345){ for(auto&e:m) if(e.second==v) k=e.first; } CHECKP("C16",k==maxk()&&m.count({k,v}),"pq-order","u_pq_peekmax gave %g, the best is %g",k,maxk()); }
    }
    CHECKP("C16",!!u_pq_empty(pq)==m.empty()&&!!u_pq_full(pq)==(m.size()==cap),"pq-count","the queue of %zu/%zu elements says empty=%d full=%d",m.size(),cap,u_pq_empty(pq),u_pq_full(pq));
  }
  while(!m.empty()){ double k; u64 v=(u64)LIBCALL(u_pq_delmax(pq,&k)); CHECKP("C16",k==maxk()&&m.count({k,v}),"pq-order","draining the queue gave priority %g although the best is %g",k,maxk()); m.erase(m.find({k,v})); }
  CHECKP("C16",u_pq_empty(pq)!=0,"pq-count","the drained queue is not empty"); LIBVOID(u_pq_free(pq)); check_balance("priority queue operations");
}
static Reg r3("pqueue",{"C16"},scen_pq,1);

// ------------------------------------------------------------------ binary search tree
static std::map<void*,int> vfreed, kfreed; static int icmp_(const void*a,const void*b){ int x,y; memcpy(&x,a,4); memcpy(&y,b,4); return x<y?-1:x>y; } static int rscmp(const void*a,const void*b){ return -strcmp((const char*)a,(const char*)b); }
static void cb_vfree(void*p){ vfreed[p]++; } static void cb_kfree(void*p){ kfreed[p]++; }
static std::vector<u_bst_node_t*> *walk; static void cb_walk(u_bst_node_t*n,void*arg){ CHECKP("C16",arg==(void*)&walk,"bst-walk","the walk does not pass the argument on"); walk->push_back(n); }
static void scen_bst(){
  vfreed.clear(); kfreed.clear(); baseline(); static const int opts[]={U_BST_OPT_NONE,U_BST_OPT_RANDOMIZED,U_BST_OPT_PUSH_TOP,U_BST_OPT_PUSH_BOTTOM}; int opt=opts[draw(4)]; int kt=draw(3), vt=draw(3); u_bst_t*b=NULL;
  { u64 h0=hard_faults(); if(LIBCALL(u_bst_new(opt,&b))){ CHECKP("C16",hard_faults()>h0,"bst-refused","u_bst_new failed although memory was available"); check_balance("u_bst_new"); return; } }
  int rev=kt!=1&&draw(2); int dom=draw(2)?8:60; bool vdtor=draw(2);
  // string keys, int keys (opaque), pointers to the caller's strings
  static char pool[64][8]; for(int i=0;i<64;i++) snprintf(pool[i],8,"k%02d",i); static char vals[256];
  int orc=0; if(kt==1){ orc|=u_bst_set_keyattr(b,U_BST_TYPE_OPAQUE,4); orc|=u_bst_set_cmp(b,icmp_); } else if(kt==2){ orc|=u_bst_set_keyattr(b,U_BST_TYPE_PTR,0); orc|=u_bst_set_keyfree(b,cb_kfree); } if(rev) orc|=u_bst_set_cmp(b,rscmp);
  if(vt==1) orc|=u_bst_set_valattr(b,U_BST_TYPE_OPAQUE,4); else if(vt==2) orc|=u_bst_set_valattr(b,U_BST_TYPE_STRING,0); else if(vdtor) orc|=u_bst_set_valfree(b,cb_vfree); CHECKP("C16",orc==0,"bst-options","setting a valid option of a tree failed");
  trace("op new opt=%d key=%d val=%d rev=%d",opt,kt,vt,rev);
  int ikeys[64]; for(int i=0;i<64;i++) ikeys[i]=i; auto kptr=[&](int k)->const void*{ return kt==1?(const void*)&ikeys[k]:(const void*)pool[k]; };
  std::multimap<int,int> m; int seq=0; // key -> value id
  auto vmatch=[&](const void*p,int id){ if(vt==1){ int x; if(!p) return false; memcpy(&x,p,4); return x==id; } if(vt==2) return p&&std::to_string(id)==(const char*)p; return p==(const void*)&vals[id%256]; };
  auto kof=[&](u_bst_node_t*n){ const void*p=u_bst_node_key(n); if(kt==1){ int x; memcpy(&x,p,4); return x; } return atoi((const char*)p+1); };
  auto vid=[&](u_bst_node_t*n,int k)->int{ auto r=m.equal_range(k); for(auto i=r.first;i!=r.second;++i) if(vmatch(u_bst_node_val(n),i->second)) return i->second; return -1; };
  auto check=[&](const char*op,int del=-1){ NoFault nf; std::vector<u_bst_node_t*> w; walk=&w; u_bst_foreach(b,cb_walk,&walk); size_t want=m.size()-(del>=0);
    CHECKP("C16",w.size()==want,"bst-content","after %s the walk visits %zu nodes instead of %zu",op,w.size(),want);
    std::multimap<int,int> seen; int last=0; for(size_t i=0;i<w.size();i++){ int k=kof(w[i]); CHECKP("C16",i==0||(rev?k<=last:k>=last),"bst-order","after %s the walk is not sorted (%d after %d)",op,k,last); last=k; int id=vid(w[i],k); CHECKP("C16",id>=0,"bst-content","after %s the walk shows a key/value pair that was never inserted (key %d)",op,k); for(auto r=seen.equal_range(k);r.first!=r.second;++r.first) CHECKP("C16",r.first->second!=id,"bst-content","after %s one pair (key %d) appears twice",op,k); seen.insert({k,id});
      CHECKP("C16",u_bst_find_nth(b,i)==w[i],"bst-rank","after %s element number %zu is not the %zu-th of the walk",op,i,i); }
    if(del>=0){ for(auto i=m.begin();i!=m.end();++i){ bool in=false; for(auto r=seen.equal_range(i->first);r.first!=r.second;++r.first) if(r.first->second==i->second) in=true; if(!in){ CHECKP("C16",i->first==del,"bst-delete","deleting key %d removed key %d",del,i->first); if(vt==0&&vdtor) CHECKP("C16",vfreed[&vals[i->second%256]]==1,"bst-dtor","the deleted value was released %d times",vfreed[&vals[i->second%256]]); if(vt==0) vfreed.erase(&vals[i->second%256]); m.erase(i); break; } } }
    CHECKP("C16",u_bst_count(b)==(ssize_t)m.size(),"bst-count","after %s the tree counts %zd elements instead of %zu",op,u_bst_count(b),m.size()); CHECKP("C16",!!u_bst_empty(b)==m.empty(),"bst-count","after %s u_bst_empty says %d for %zu elements",op,u_bst_empty(b),m.size());
    CHECKP("C16",u_bst_find_nth(b,m.size())==NULL,"bst-rank","after %s there is an element beyond the last",op); for(auto&e:vfreed) fail("C16","bst-dtor","after %s a value still in the tree was released",op); };
  size_t nops=0; while(nops<50&&more(16)&&seq<250){ Span sp; nops++; u64 h0=hard_faults(); int rc; int k=draw(dom);
    switch(draw(7)){
      case 0: case 1: case 2: { int id=++seq; const void*v; kfreed.clear(); size_t kf0=0; std::string sv=std::to_string(id); int iv=id; v= vt==1?(const void*)&iv: vt==2?(const void*)sv.c_str():(const void*)&vals[id%256]; rc=LIBCALL(u_bst_push(b,kptr(k),v)); trace("op push %d=%d",k,rc); 
        if(rc==0) m.insert({k,id}); else { CHECKP("C16",hard_faults()>h0,"bst-refused","u_bst_push failed although memory was available"); CHECKP("C16",kfreed.size()==kf0,"bst-dtor","a failed u_bst_push released the caller's key"); probe("bst-push-failed"); } check("u_bst_push"); break; }
      case 3: case 4: { rc=LIBCALL(u_bst_delete(b,kptr(k))); trace("op delete %d=%d",k,rc); CHECKP("C16",(rc==0)==(m.count(k)>0),"bst-delete","u_bst_delete of %s key returned %d",m.count(k)?"a present":"an absent",rc); check("u_bst_delete",rc==0?k:-1); break; }
      case 5: { u_bst_node_t*n=LIBCALL(u_bst_search(b,kptr(k))); CHECKP("C16",(n!=NULL)==(m.count(k)>0),"bst-search","searching %s key %d gave %s",m.count(k)?"the present":"the absent",k,n?"a node":"nothing"); if(n) CHECKP("C16",kof(n)==k&&vid(n,k)>=0,"bst-search","searching key %d gave a node with key %d",k,kof(n)); trace("op search %d",k); break; }
      default: rc=LIBCALL(u_bst_balance(b)); trace("op balance=%d",rc); check("u_bst_balance"); 
        if(m.size()>=2){ u_bst_node_t*r=NULL; std::vector<u_bst_node_t*> w; walk=&w; u_bst_foreach(b,cb_walk,&walk); for(auto n:w) if(u_bst_node_count(n)==(ssize_t)m.size()) r=n; CHECKP("C16",r!=NULL,"bst-count","no node counts the whole tree after balancing"); }
    } }
  size_t left=m.size(); LIBVOID(u_bst_free(b)); if(vt==0&&vdtor){ size_t n=0; for(auto&e:vfreed){ CHECKP("C16",e.second==1,"bst-dtor","a value was released %d times",e.second); n++; } CHECKP("C16",n==left,"bst-dtor","u_bst_free released %zu of %zu values",n,left); }
  check_balance("search tree operations");
}
static Reg r4("bst",{"C16"},scen_bst,2);

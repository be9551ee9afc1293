// Hash maps, unbounded (C12) and bounded with a discard policy (C13), against a reference map with explicit bookkeeping
#include "common.h"

namespace {
const int NK=400, NV=4000;
char kpool[NK][64], kalias[NK][64]; bool aliases; char cells[NV]; int prio_of[NV]; char ikeys[NK][64]; int ksz, vsz; /* sizes of opaque keys and values; the identity is in their last bytes */
std::vector<int> vfreed; std::vector<const void*> kfreed; int weak_hash=0;
struct Ent { int id; u64 ins, use; u64 cnt; u_hmap_o_t *obj; bool moved=false; /* came from another map: uses before that may or may not count */ };
enum { POL_NONE, POL_FIFO, POL_LRU, POL_LFU, POL_CUSTOM };

int vt, kt; // value / key type: 0 pointer 1 string 2 opaque
int vid(const void *v){ if(!v) return -1; if(vt==1) return atoi((const char*)v+1); if(vt==2){ int x; memcpy(&x,(const char*)v+vsz-4,4); return x; } ptrdiff_t d=(const char*)v-cells; return d>=0&&d<NV?(int)d:-1; }
int kid(const void *k){ if(!k) return -1; if(kt==2){ int x; memcpy(&x,(const char*)k+ksz-4,4); return (int)__builtin_bswap32(x); } size_t n=strlen((const char*)k); return n<4?-2:atoi((const char*)k+n-3); }
void cb_vfree(void *v){ vfreed.push_back(vid(v)); }
void cb_kfree(const void *k){ kfreed.push_back(k); }
void cb_ofree(u_hmap_o_t *o){ vfreed.push_back(vid(u_hmap_o_get_val(o))); } // keys and values are the application's in this configuration
int cb_pcmp(void *a,void *b){ int x=prio_of[vid(a)], y=prio_of[vid(b)]; return x<y?-1:x>y; }
size_t hash_op(const void *k,size_t n){ int x=kid(k); return weak_hash?(size_t)(x%3)%n:(size_t)x*2654435761u%n; }
size_t hash_str(const void *k,size_t n){ size_t x=kid(k); return weak_hash?(x%3)%n:x*2654435761u%n; }
int comp_op(const void *a,const void *b){ int x=kid(a),y=kid(b); return x<y?-1:x>y; }
int comp_rev(const void *a,const void *b){ return -strcasecmp((const char*)a,(const char*)b); } // several spellings of one key
std::vector<std::pair<int,int>> *seen; long stop_after; const void *arg_expected; bool arg_ok;
int cb_kv(const void *k,const void *v){ seen->push_back({kid(k),vid(v)}); return --stop_after==0; }
int cb_v(const void *v){ seen->push_back({0,vid(v)}); return --stop_after==0; }
int cb_va(const void *v,const void *a){ if(a!=arg_expected) arg_ok=false; seen->push_back({0,vid(v)}); return --stop_after==0; }

u_string_t *cb_str(u_hmap_o_t*o){ u_string_t*s=NULL; char b[400]; int n=snprintf(b,400,"<%d=%*d>",kid(u_hmap_o_get_key(o)),vid(u_hmap_o_get_val(o))%300,vid(u_hmap_o_get_val(o))); return u_string_create(b,n,&s)?NULL:s; }

// the map has its own copy of the options: what happens to these must not matter
void junk_opts(u_hmap_opts_t*o){ Lib l; u_hmap_opts_set_size(o,1); u_hmap_opts_set_max(o,1); u_hmap_opts_set_type(o,U_HMAP_TYPE_LINEAR); u_hmap_opts_set_policy(o,U_HMAP_PCY_FIFO); u_hmap_opts_set_option(o,U_HMAP_OPTS_NO_OVERWRITE); u_hmap_opts_unset_option(o,U_HMAP_OPTS_OWNSDATA); u_hmap_opts_set_key_type(o,U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_val_type(o,U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_key_sz(o,1); u_hmap_opts_set_val_sz(o,1); u_hmap_opts_set_hashfunc(o,hash_op); u_hmap_opts_set_compfunc(o,comp_op); u_hmap_opts_set_val_freefunc(o,(void(*)(void*))abort); u_hmap_opts_set_key_freefunc(o,(void(*)(const void*))abort); u_hmap_opts_set_freefunc(o,(void(*)(u_hmap_o_t*))abort); u_hmap_opts_set_strfunc(o,cb_str); }
struct Map {
  u_hmap_t *h=NULL; std::map<int,Ent> m;
};
}

static void scen_hmap(const char *P, bool bounded){
  std::string PR=std::string(P)+",C20"; faults_allow({F_MALLOC}); // formatting "%u" cannot fail
  vfreed.clear(); kfreed.clear(); baseline();
  int pre=draw(3)==2?1+draw(3)*18:1; ksz=draw(2)?4:4+4*(1+draw(13)); vsz=draw(2)?4:4+4*(1+draw(13)); for(int i=0;i<NK;i++){ snprintf(kpool[i],64,"%.*s%03d",pre,"kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk",i); memset(ikeys[i],'K',ksz-4); int be=__builtin_bswap32(i); memcpy(ikeys[i]+ksz-4,&be,4); memcpy(kalias[i],kpool[i],64); for(char*c=kalias[i];*c;c++) *c=toupper(*c); }
  bool easy=draw(2)==0, linear=draw(3)==2, overwrite=draw(2), owned=easy||draw(3)!=2, nodtor=draw(4)==3, custom_free=!easy&&owned&&draw(4)==3;
  int pol=bounded?1+draw(4):POL_NONE; int size=draw(4)?1+draw(40):(draw(2)?1:512), max=1+(draw(3)?draw(6):draw(24)); bool setsize=draw(5)!=4, setmax=draw(8)!=7;
  vt=draw(3); kt=easy?1:(int)((draw(3)+1)%3); if(!owned){ vt=0; } if(custom_free){ vt=0; kt=0; }
  bool chash=kt==2||(!easy&&draw(3)==2), strong=chash&&draw(2), rev=kt!=2&&!easy&&draw(4)==3; weak_hash=draw(3)==2; bool fstr=draw(4)==3; int dom=draw(3)?8+draw(8):(draw(2)?60:NK);
  aliases=rev&&chash;
  bool bare=!bounded&&draw(14)==13; if(bare){ easy=linear=overwrite=custom_free=chash=strong=rev=setsize=fstr=aliases=false; owned=nodtor=true; vt=0; kt=1; trace("op bare options"); }
  int ostyle=bare?0:draw(5);
  for(int i=0;i<NV;i++) prio_of[i]=0;
  if(!setmax) max=512;
  const char *pn[]={"none","fifo","lru","lfu","custom"};
  trace("op config %s %s size=%d max=%d policy=%s overwrite=%d owned=%d key=%d val=%d hash=%d/%d",easy?"easy":"full",linear?"linear":"chain",setsize?size:512,max,pn[pol],overwrite,owned,kt,vt,chash,strong);
  auto mkmap=[&](u_hmap_t **ph)->int{ u_hmap_opts_t *o=NULL; u64 h0=hard_faults(); int rc=LIBCALL(u_hmap_opts_new(&o)); if(rc){ CHECKP(P,hard_faults()>h0,"hmap-refused","u_hmap_opts_new failed although memory was available"); return rc; } if(ostyle==3){ junk_opts(o); LIBVOID(u_hmap_opts_init(o)); }
    auto OK=[&](int r){ CHECKP(P,r==0,"hmap-option","setting a map option to a valid value failed"); };
    if(setsize) OK(u_hmap_opts_set_size(o,size)); if(bounded&&setmax) OK(u_hmap_opts_set_max(o,max)); if(linear) OK(u_hmap_opts_set_type(o,U_HMAP_TYPE_LINEAR)); OK(u_hmap_opts_set_policy(o,(u_hmap_pcy_type_t)pol)); if(pol==POL_CUSTOM) OK(u_hmap_opts_set_policy_cmp(o,cb_pcmp));
    if(ostyle==2){ OK(u_hmap_opts_unset_option(o,U_HMAP_OPTS_NO_OVERWRITE)); OK(u_hmap_opts_unset_option(o,U_HMAP_OPTS_OWNSDATA)); OK(u_hmap_opts_set_option(o,U_HMAP_OPTS_OWNSDATA)); OK(u_hmap_opts_set_option(o,U_HMAP_OPTS_NO_OVERWRITE)); }
    if(overwrite) OK(u_hmap_opts_unset_option(o,U_HMAP_OPTS_NO_OVERWRITE)); if(!owned) OK(u_hmap_opts_unset_option(o,U_HMAP_OPTS_OWNSDATA));
    OK(u_hmap_opts_set_val_type(o,vt==0?U_HMAP_OPTS_DATATYPE_POINTER:vt==1?U_HMAP_OPTS_DATATYPE_STRING:U_HMAP_OPTS_DATATYPE_OPAQUE)); if(vt==2&&vsz!=8) OK(u_hmap_opts_set_val_sz(o,vsz)); if(vt==0) OK(u_hmap_opts_set_val_freefunc(o,nodtor||!owned?NULL:cb_vfree));
    if(!easy){ OK(u_hmap_opts_set_key_type(o,kt==0?U_HMAP_OPTS_DATATYPE_POINTER:kt==1?U_HMAP_OPTS_DATATYPE_STRING:U_HMAP_OPTS_DATATYPE_OPAQUE)); if(kt==2){ if(ksz!=8) OK(u_hmap_opts_set_key_sz(o,ksz)); OK(u_hmap_opts_set_compfunc(o,comp_op)); } if(kt==0&&owned) OK(u_hmap_opts_set_key_freefunc(o,cb_kfree)); if(chash){ OK(u_hmap_opts_set_hashfunc(o,kt==2?hash_op:hash_str)); if(strong) OK(u_hmap_opts_set_option(o,U_HMAP_OPTS_HASH_STRONG)); } if(rev) OK(u_hmap_opts_set_compfunc(o,comp_rev)); if(custom_free) OK(u_hmap_opts_set_freefunc(o,cb_ofree)); if(fstr) OK(u_hmap_opts_set_strfunc(o,cb_str)); }
    if(ostyle==4){ u_hmap_opts_t*t=NULL; h0=hard_faults(); rc=LIBCALL(u_hmap_opts_new(&t)); if(rc){ CHECKP(P,hard_faults()>h0,"hmap-refused","u_hmap_opts_new failed although memory was available"); LIBVOID(u_hmap_opts_free(o)); return rc; } CHECKP(P,LIBCALL(u_hmap_opts_copy(t,o))==0,"hmap-refused","u_hmap_opts_copy failed"); junk_opts(o); LIBVOID(u_hmap_opts_free(o)); o=t; }
    u_hmap_opts_t*use=bare?NULL:o;
    h0=hard_faults(); rc=LIBCALL(easy?u_hmap_easy_new(use,ph):u_hmap_new(use,ph)); CHECKP(P,rc==0||hard_faults()>h0,"hmap-refused","creating the map failed although memory was available"); junk_opts(o); LIBVOID(u_hmap_opts_free(o)); return rc; };
  if(draw(10)==9){ // configurations that have to be refused
    u_hmap_opts_t*o=NULL; u_hmap_t*h=NULL; if(LIBCALL(u_hmap_opts_new(&o))==0){ int k=draw(5), rc=-1; bool ez=false; trace("op refused config %d",k);
      if(k==0) ez=true; else if(k==1) CHECKP(P,LIBCALL(u_hmap_opts_set_policy(o,U_HMAP_PCY_CUSTOM))==0,"hmap-refused","u_hmap_opts_set_policy failed"); else if(k==2) CHECKP(P,LIBCALL(u_hmap_opts_set_size(o,-(int)draw(2)))!=0,"hmap-accepted","a size below 1 was accepted"); else if(k==3) CHECKP(P,LIBCALL(u_hmap_opts_set_max(o,-(int)draw(2)))!=0,"hmap-accepted","a limit below 1 was accepted"); else CHECKP(P,LIBCALL(u_hmap_opts_set_policy_cmp(o,cb_pcmp))!=0,"hmap-accepted","a policy comparison was accepted for policy none");
      u64 h0=hard_faults(); rc=LIBCALL(ez?u_hmap_easy_new(o,&h):u_hmap_new(o,&h)); if(k<2) CHECKP(P,rc!=0,"hmap-accepted",k?"a custom policy without comparison was accepted":"an easy map of pointers without release function was accepted"); else { CHECKP(P,rc==0||hard_faults()>h0,"hmap-refused","creating the map failed although memory was available"); if(!rc){ CHECKP(P,u_hmap_count(h)==0,"hmap-count","a new map is not empty"); LIBVOID(u_hmap_free(h)); } }
      LIBVOID(u_hmap_opts_free(o)); } check_balance("refused configuration"); }
  Map A; if(mkmap(&A.h)){ check_balance("u_hmap_new"); return; }
  bool vd=owned&&((vt==0&&!nodtor)||custom_free), kd=owned&&kt==0&&!custom_free; u64 clk=1; int nid=0;
  auto check=[&](Map&M,const char*op){ NoFault nf; std::vector<std::pair<int,int>> s; seen=&s; stop_after=-1; int rc; { Lib l; rc=u_hmap_foreach_keyval(M.h,cb_kv); } CHECKP(P,rc==0,"hmap-iter","after %s the iteration failed",op);
    std::set<int> ks; for(auto&e:s){ CHECKP(P,ks.insert(e.first).second,"hmap-dup","after %s key %d is in the map twice",op,e.first); auto i=M.m.find(e.first); CHECKP(P,i!=M.m.end(),"hmap-extra","after %s key %d is in the map but should not",op,e.first); CHECKP(P,i->second.id==e.second,"hmap-value","after %s key %d has value %d instead of %d",op,e.first,e.second,i->second.id); }
    for(auto&e:M.m) CHECKP(P,ks.count(e.first),"hmap-lost","after %s key %d is no longer in the map",op,e.first);
    CHECKP(P,u_hmap_count(M.h)==(ssize_t)M.m.size(),"hmap-count","after %s the map counts %zd entries instead of %zu",op,u_hmap_count(M.h),M.m.size());
    if(bounded) CHECKP(P,M.m.size()<=(size_t)max,"hmap-max","after %s the map holds %zu entries, the limit is %d",op,M.m.size(),max); };
  auto expect_freed=[&](const char*op,std::vector<int> v,int maybe=-1){ if(!vd){ v.clear(); maybe=-1; } std::sort(v.begin(),v.end()); std::vector<int> g=vfreed; std::sort(g.begin(),g.end()); if(g!=v&&maybe>=0){ v.push_back(maybe); std::sort(v.begin(),v.end()); } std::string gs,es; for(int x:g) gs+=" "+std::to_string(x); for(int x:v) es+=" "+std::to_string(x); if(gs.empty()) gs=" none"; if(es.empty()) es=" none"; CHECKP(PR.c_str(),g==v,"hmap-release","%s released value(s)%s, expected%s",op,gs.c_str(),es.c_str()); if(kd&&maybe<0) CHECKP(PR.c_str(),kfreed.size()==(vd||vt?g.size():kfreed.size())||vt,"hmap-release","%s released %zu keys, expected %zu",op,kfreed.size(),g.size()); vfreed.clear(); kfreed.clear(); };
  std::set<int> gone_now;
  auto pick_key=[&](Map&M){ if(!M.m.empty()&&draw(3)==2) return std::next(M.m.begin(),draw(M.m.size()))->first; return (int)draw(dom); };
  auto kptr=[&](int k)->const void*{ return kt==2?(const void*)ikeys[k]:aliases&&draw(2)?(const void*)kalias[k]:(const void*)kpool[k]; };
  auto touch=[&](Map&M,int k){ auto&e=M.m[k]; e.use=++clk; e.cnt++; };
  size_t nops=0, maxops=draw(4)?60:400; u32 avg=maxops==60?20:150;
  while(nops<maxops&&more(avg)&&nid<NV-2){ Span sp; nops++; u64 h0=hard_faults(); int rc; bool err;
    switch(draw(10)){
      case 0: case 1: case 2: case 3: case 4: { // put
        int k=pick_key(A), id=++nid; prio_of[id]=draw(5); char sv[16]; snprintf(sv,16,"v%d",id); char iv[64]; memset(iv,'V',vsz); memcpy(iv+vsz-4,&id,4); const void*v=vt==0?(const void*)&cells[id]:vt==1?(const void*)sv:(const void*)iv; u_hmap_o_t*o=NULL,*old=(u_hmap_o_t*)0x1; bool pass_old=!easy&&(!owned||draw(2)); const char*kp=(const char*)kptr(k);
        char tmpk[64]; if(kt==1&&owned){ strcpy(tmpk,kp); kp=tmpk; } if(kt==2&&owned){ memcpy(tmpk,kp,ksz); kp=tmpk; } // owned string keys must be copied
        if(easy){ rc=LIBCALL(u_hmap_easy_put(A.h,kp,v)); }
        else { o=LIBCALL(u_hmap_o_new(A.h,kp,v)); if(!o){ CHECKP(P,hard_faults()>h0,"hmap-refused","u_hmap_o_new failed although memory was available"); trace("op put k%d o_new failed",k); expect_freed("u_hmap_o_new",{}); check(A,"u_hmap_o_new"); break; } rc=LIBCALL(u_hmap_put(A.h,o,pass_old?&old:NULL)); }
        memset(sv,'#',15); memset(tmpk,'#',63); tmpk[63]=0; memset(iv,'#',64); err=hard_faults()>h0; bool had=A.m.count(k); trace("op put k%d v%d p%d =%d n=%zu",k,id,prio_of[id],rc,A.m.size());
        if(rc==U_HMAP_ERR_FAIL){ CHECKP(P,err,"hmap-refused","putting key %d (%s, %zu entries) failed although memory was available",k,had?"present":"new",A.m.size()); expect_freed("the failed put",{},id); probe("hmap-put-failed"); check(A,"a failed put"); if(!owned) LIBVOID(u_hmap_o_free(o)); break; }
        if(had&&!overwrite){ CHECKP(P,rc==U_HMAP_ERR_EXISTS,"hmap-overwrite","putting the existing key %d without overwrite returned %d",k,rc); if(owned){ expect_freed("the refused put",{id}); if(pass_old) CHECKP(P,old==NULL,"hmap-old","a refused put hands out an object owned by the map"); } else { if(pass_old) CHECKP(P,old==A.m[k].obj,"hmap-old","a refused put does not hand out the existing object"); LIBVOID(u_hmap_o_free(o)); } check(A,"a refused put"); break; }
        CHECKP(P,rc==U_HMAP_ERR_NONE,"hmap-put","putting key %d (%s) returned %d",k,had?"present, overwrite allowed":"new",rc);
        if(had){ Ent e=A.m[k]; if(owned) expect_freed("the overwriting put",{e.id}); else { if(pass_old) CHECKP(P,old==e.obj,"hmap-old","an overwriting put does not hand out the overwritten object"); LIBVOID(u_hmap_o_free(e.obj)); } A.m[k]={id,++clk,clk,0,o}; check(A,"an overwriting put"); break; }
        if(bounded&&A.m.size()>=(size_t)max){ // one victim, chosen by the policy
          NoFault nf; std::vector<std::pair<int,int>> s; seen=&s; stop_after=-1; { Lib l; u_hmap_foreach_keyval(A.h,cb_kv); } std::set<int> now; for(auto&x:s) now.insert(x.first); std::vector<int> lost; for(auto&x:A.m) if(!now.count(x.first)) lost.push_back(x.first);
          CHECKP(P,lost.size()==A.m.size()+1-max,"hmap-evict","putting a new key into a full map of %zu discarded %zu entries",A.m.size(),lost.size()); int vk=lost[0]; Ent ve=A.m[vk];
          for(auto&x:A.m){ auto&e=x.second; bool worse= pol==POL_FIFO?e.ins<ve.ins: pol==POL_LRU?e.use<ve.use: pol==POL_LFU?!e.moved&&e.cnt<ve.cnt: prio_of[e.id]<prio_of[ve.id]; CHECKP(P,!worse,"hmap-victim","the %s map discarded key %d (ins %llu use %llu cnt %llu prio %d) although key %d (ins %llu use %llu cnt %llu prio %d) ranks worse",pn[pol],vk,(unsigned long long)ve.ins,(unsigned long long)ve.use,(unsigned long long)ve.cnt,prio_of[ve.id],x.first,(unsigned long long)e.ins,(unsigned long long)e.use,(unsigned long long)e.cnt,prio_of[e.id]); }
          probe("hmap-evicted"); A.m.erase(vk); if(owned) expect_freed("the discarding put",{ve.id}); else { if(pass_old) CHECKP(P,old==ve.obj,"hmap-old","the discarded object is not handed out"); LIBVOID(u_hmap_o_free(ve.obj)); } }
        else { expect_freed("the put",{}); if(pass_old) CHECKP(P,old==NULL,"hmap-old","putting a new key hands out an object"); }
        A.m[k]={id,++clk,clk,0,o}; check(A,"a put"); break; }
      case 5: case 6: { // get
        int k=pick_key(A); int got; if(easy||draw(4)==3){ void*v=LIBCALL(u_hmap_easy_get(A.h,(const char*)kptr(k))); got=v?vid(v):-1; } else { u_hmap_o_t*o=(u_hmap_o_t*)0x1; rc=LIBCALL(u_hmap_get(A.h,kptr(k),&o)); if(rc){ CHECKP(P,o==NULL,"hmap-get","a failed u_hmap_get hands out an object"); got=-1; } else { CHECKP(P,o&&kid(u_hmap_o_get_key(o))==k,"hmap-get","u_hmap_get of key %d gives an object with another key",k); got=vid(u_hmap_o_get_val(o)); if(!owned) CHECKP(P,o==A.m[k].obj,"hmap-get","u_hmap_get of key %d gives another object",k); } }
        trace("op get k%d =v%d",k,got); auto i=A.m.find(k); CHECKP(P,got==(i==A.m.end()?-1:i->second.id),"hmap-get","key %d gives value %d instead of %d",k,got,i==A.m.end()?-1:i->second.id); if(got>=0) touch(A,k); expect_freed("the get",{});
        if(bounded&&pol==POL_LFU&&A.m.size()>1&&draw(4)==3){ // use some entries very often, by nearly the same number of times
          static const u32 HOT[]={3,20,105,130,260,520,1100,33000,66000}; u32 n=HOT[draw(40)==39?7+draw(2):draw(7)]; if(n>2000) large_run(); NoFault nf; int b=2+draw(2); for(int i=0;i<b;i++){ auto j=A.m.begin(); std::advance(j,draw(A.m.size())); u32 times=n+draw(4)*draw(3); for(u32 y=0;y<times;y++){ u_hmap_o_t*o=NULL; Lib l; if(easy?!u_hmap_easy_get(A.h,(const char*)kptr(j->first)):u_hmap_get(A.h,kptr(j->first),&o)) sim::fail(P,"hmap-get","a present key (%d) is not found",j->first); } j->second.use=++clk; j->second.cnt+=times; trace("op get k%d %u times",j->first,times); } probe("hmap-hot"); }
        break; }
      case 7: { // del
        int k=pick_key(A); u_hmap_o_t*o=(u_hmap_o_t*)0x1; bool po=!easy&&draw(2); rc=LIBCALL(easy?u_hmap_easy_del(A.h,(const char*)kptr(k)):u_hmap_del(A.h,kptr(k),po?&o:NULL)); auto i=A.m.find(k); trace("op del k%d =%d",k,rc);
        CHECKP(P,(rc==0)==(i!=A.m.end()),"hmap-del","deleting %s key %d returned %d",i!=A.m.end()?"the present":"the absent",k,rc); if(i!=A.m.end()){ Ent e=i->second; A.m.erase(i); if(owned){ expect_freed("the delete",{e.id}); if(po) CHECKP(P,o==NULL,"hmap-del","a delete hands out an object the map has released"); } else { if(po) CHECKP(P,o==e.obj,"hmap-del","the deleted object is not handed out"); if(draw(3)==2){ // put the very object back
              u64 h1=hard_faults(); u_hmap_o_t*old=NULL; rc=LIBCALL(u_hmap_put(A.h,e.obj,&old)); trace("op re-put k%d =%d",k,rc); if(rc){ CHECKP(P,hard_faults()>h1,"hmap-refused","putting a deleted object back failed although memory was available"); LIBVOID(u_hmap_o_free(e.obj)); } else { CHECKP(P,!old,"hmap-old","putting a deleted object back hands out an object"); A.m[k]={e.id,++clk,clk,0,e.obj}; } } else LIBVOID(u_hmap_o_free(e.obj)); } }
        check(A,"a delete"); break; }
      case 8: { if(draw(4)){ // iteration variants
          NoFault nf; std::vector<std::pair<int,int>> s; seen=&s; long lim=A.m.empty()||draw(2)?-1:1+(long)draw(A.m.size()); stop_after=lim; int w=draw(3); arg_ok=true; int dummy; arg_expected=&dummy; { Lib l; rc=w==0?u_hmap_foreach(A.h,cb_v):w==1?u_hmap_foreach_arg(A.h,cb_va,&dummy):u_hmap_foreach_keyval(A.h,cb_kv); }
          trace("op foreach%d lim=%ld =%d",w,lim,rc); CHECKP(P,(rc==0)==(lim<0),"hmap-iter","the iteration returned %d",rc); CHECKP(P,s.size()==(lim<0?A.m.size():(size_t)lim),"hmap-iter","the iteration visited %zu entries of %zu%s",s.size(),A.m.size(),lim<0?"":" although stopped by the callback"); CHECKP(P,arg_ok,"hmap-iter","the iteration does not pass the argument on"); std::set<int> d; for(auto&x:s){ bool f=false; for(auto&e:A.m) f|=e.second.id==x.second; CHECKP(P,f&&d.insert(x.second).second,"hmap-iter","the iteration shows a wrong or repeated value"); } break; }
        LIBVOID(easy?u_hmap_easy_clear(A.h):u_hmap_clear(A.h)); trace("op clear n=%zu",A.m.size()); std::vector<int> ids; for(auto&e:A.m){ ids.push_back(e.second.id); if(!owned) LIBVOID(u_hmap_o_free(e.second.obj)); } A.m.clear(); expect_freed("the clear",owned?ids:std::vector<int>()); check(A,"a clear"); break; }
      default: { // move everything to another map
        if(draw(4)==3){ LIBVOID(u_hmap_dbg(A.h)); LIBVOID(u_hmap_pcy_dbg(A.h)); if(draw(2)){ for(int e:{U_HMAP_ERR_NONE,U_HMAP_ERR_FAIL,U_HMAP_ERR_EXISTS}){ const char*s=LIBCALL(u_hmap_strerror((u_hmap_ret_t)e)); CHECKP(P,s&&*s,"hmap-strerror","no text for error %d",e); } } trace("op print n=%zu",A.m.size()); expect_freed("printing",{}); check(A,"printing"); break; }
        if(draw(3)==0) break; Map B; if(mkmap(&B.h)) break; rc=LIBCALL(u_hmap_copy(B.h,A.h)); trace("op copy n=%zu =%d",A.m.size(),rc); err=hard_faults()>h0; CHECKP(P,rc==0||err,"hmap-refused","copying a map of %zu entries failed although memory was available",A.m.size());
        expect_freed("the copy",{});
        if(rc==0){ B.m=A.m; A.m.clear(); check(B,"a copy"); ++clk; for(auto&e:B.m){ e.second.ins=e.second.use=clk; e.second.cnt=0; e.second.moved=true; } if(bounded) probe("hmap-bounded-copy"); NoFault nf; for(auto&e:B.m){ u_hmap_o_t*o=NULL; Lib l; CHECKP(P,u_hmap_get(B.h,kptr(e.first),&o)==0&&vid(u_hmap_o_get_val(o))==e.second.id,"hmap-copy","the copied key %d can't be looked up",e.first); touch(B,e.first); } std::swap(A.h,B.h); std::swap(A.m,B.m); check(B,"a copy (source)"); }
        else { probe("hmap-copy-failed"); NoFault nf; std::vector<std::pair<int,int>> s; seen=&s; stop_after=-1; { Lib l; u_hmap_foreach_keyval(B.h,cb_kv); } for(auto&x:s){ auto i=A.m.find(x.first); CHECKP(P,i!=A.m.end()&&i->second.id==x.second,"hmap-extra","a failed copy put a foreign entry into the target"); B.m[x.first]=i->second; A.m.erase(i); } check(B,"a failed copy (target)"); check(A,"a failed copy (source)"); }
        std::vector<int> ids; for(auto&e:B.m){ ids.push_back(e.second.id); } LIBVOID(u_hmap_free(B.h)); if(!owned) for(auto&e:B.m) LIBVOID(u_hmap_o_free(e.second.obj)); expect_freed("releasing a map",owned?ids:std::vector<int>()); break; }
    } }
  { NoFault nf; for(auto&e:A.m){ u_hmap_o_t*o=NULL; Lib l; CHECKP(P,u_hmap_get(A.h,kptr(e.first),&o)==0&&vid(u_hmap_o_get_val(o))==e.second.id,"hmap-get","key %d can't be retrieved at the end",e.first); } }
  std::vector<int> ids; for(auto&e:A.m) ids.push_back(e.second.id); LIBVOID(easy?u_hmap_easy_free(A.h):u_hmap_free(A.h)); if(owned) expect_freed("releasing the map",ids); else for(auto&e:A.m) LIBVOID(u_hmap_o_free(e.second.obj));
  check_balance("hash map operations","","C12");
}
static void scen_hmap_u(){ scen_hmap("C12",false); }
static void scen_hmap_b(){ scen_hmap("C13",true); }
static Reg r1("hmap",{"C12"},scen_hmap_u,2);
static Reg r2("hmap-bounded",{"C13"},scen_hmap_b,2);

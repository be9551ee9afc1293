// Save honesty (C04), load honesty (C05), copy/move/remove (C06)
#include "common.h"
#include <sys/stat.h>

static std::string content(){ switch(draw(6)){ case 0: return rbytes(logu(5),0); case 1: return ""; case 2: return rbytes(logu(9),1); case 3: return rbytes(4000+draw(200),1); case 4: return rbytes(logu(13),1); default: return rbytes(1+draw(40),0); } }
static std::string target(){ static const char*p[]={"/a/out","/b/out","rel","/nodir/x","/a/d","/a/sub/y"}; static const int w[]={0,0,0,0,0,1,1,1,2,3,4,5}; return p[w[draw(12)]]; }
static bool bad_target(const std::string&t){ return t=="/nodir/x"||t=="/a/d"||t==""; }

static void scen_save(){
  fs_mkdir("/a/d"); size_t nops=0; baseline();
  while(nops<6 && more(2)){ Span sp; nops++;
    std::string t=target(), d=content(); if(chance(1,4)&&!bad_target(t)) fs_put(t,content()); if(chance(1,6)) fs_capacity(t[1]=='b',draw(3)?logu(13):draw(8)); 
    int api=draw(3); u64 h0=hard_faults(); int rc; std::string want;
    if(api==0){ char*b=(char*)malloc(d.size()+1); memcpy(b,d.data(),d.size()); rc=LIBCALL(u_data_dump(b,d.size(),t.c_str())); CHECKP("C04",memcmp(b,d.data(),d.size())==0,"data-modified","the data being saved was modified"); free(b); want=d; }
    else if(api==1){ u_buf_t*ub=NULL; { NoFault nf; if(u_buf_create(&ub)) end_run(); if(d.size()) if(u_buf_append(ub,d.data(),d.size())) end_run(); }
      rc=LIBCALL(u_buf_save(ub,t.c_str())); want=d; CHECKP("C04",u_buf_len(ub)==(ssize_t)d.size()&&(d.empty()||!memcmp(u_buf_ptr(ub),d.data(),d.size())),"data-modified","the buffer being saved was modified"); u_buf_free(ub); }
    else { rc=LIBCALL(u_savepid(t.c_str())); want="4242\n"; }
    bool err=hard_faults()>h0; std::string got=fs_data(t); static const char*nm[]={"u_data_dump","u_buf_save","u_savepid"};
    trace("op %s(%zu bytes, %s)=%d%s; file now %zu bytes",nm[api],want.size(),t.c_str(),rc,err?" (fault)":"",got.size());
    if(rc==0){ bool exact=fs_exists(t)&&got==want; CHECKP("C04",exact,"false-success","%s reported success but the file holds %zu bytes %s instead of %zu bytes %s",nm[api],got.size(),q(got).c_str(),want.size(),q(want).c_str()); probe("saved"); }
    else CHECKP("C04",err||bad_target(t),"false-failure","%s of %zu bytes to %s failed although no system call failed",nm[api],want.size(),t.c_str());
    check_balance(nm[api]); fs_capacity(0,~0ull); fs_capacity(1,~0ull);
  }
}
static Reg r1("save",{"C04"},scen_save,2);

static void scen_load(){
  fs_mkdir("/a/d"); size_t nops=0; u_buf_t*ub=NULL; std::string cur; baseline(); { NoFault nf; if(u_buf_create(&ub)) end_run(); }
  while(nops<6 && more(2)){ Span sp; nops++;
    std::string p="/a/in", d=content(); bool missing=chance(1,8), isdir=!missing&&chance(1,16); if(missing) p="/a/none"; else if(isdir) p="/a/d"; else fs_put(p,d);
    u64 h0=hard_faults();
    if(draw(2)==0){
      size_t max; switch(draw(4)){ case 0: max=0; break; case 1: max=d.size(); break; case 2: max=d.size()+1; break; default: max=d.size()>1?d.size()-1:0; } char*b=(char*)0x1; size_t n=777777;
      int rc=LIBCALL(u_load_file(p.c_str(),max,&b,&n)); bool err=hard_faults()>h0; bool toobig=max&&d.size()>max;
      trace("op u_load_file(%s %zu bytes, max %zu)=%d n=%zu%s",p.c_str(),d.size(),max,rc,n,err?" (fault)":"");
      if(rc==0){ CHECKP("C05",!missing&&!isdir&&!toobig,"load-bad","u_load_file succeeded on %s",missing?"a missing file":isdir?"a directory":"a file beyond the size limit");
        CHECKP("C05",n==d.size(),"load-size","u_load_file reported %zu bytes for a file of %zu bytes",n,d.size());
        CHECKP("C05",n==0||(is_live(b)&&live_size(b)>=n&&memcmp(b,d.data(),n)==0),"load-data","u_load_file handed out %s instead of %s",n&&is_live(b)&&live_size(b)>=n?q(std::string(b,n)).c_str():"bad memory",q(d).c_str()); if(is_live(b)) u_free(b); probe("loaded"); }
      else { CHECKP("C05",err||missing||isdir||toobig,"load-refused","u_load_file of a readable %zu-byte file (limit %zu) failed although nothing went wrong",d.size(),max); CHECKP("C05",b==(char*)0x1||b==NULL,"load-leftover","a failed u_load_file handed out a buffer"); }
    } else {
      int rc=LIBCALL(u_buf_load(ub,p.c_str())); bool err=hard_faults()>h0; ssize_t n=u_buf_len(ub); char*b=(char*)u_buf_ptr(ub);
      trace("op u_buf_load(%s %zu bytes)=%d len=%zd%s",p.c_str(),d.size(),rc,n,err?" (fault)":"");
      if(rc==0){ CHECKP("C05",!missing&&!isdir,"load-bad","u_buf_load succeeded on %s",missing?"a missing file":"a directory"); CHECKP("C05",n==(ssize_t)d.size(),"load-size","u_buf_load stored %zd bytes of a file of %zu bytes",n,d.size()); CHECKP("C05",n==0||memcmp(b,d.data(),n)==0,"load-data","u_buf_load stored %s instead of %s",q(std::string(b,n)).c_str(),q(d).c_str()); if(b&&n>0) CHECKP("C05",b[n]==0,"load-term","the loaded buffer is not zero-terminated"); cur=d; probe("loaded"); }
      else { CHECKP("C05",err||missing||isdir,"load-refused","u_buf_load of a readable %zu-byte file failed although nothing went wrong",d.size());
        CHECKP("C05",n==0||(n==(ssize_t)cur.size()&&memcmp(b,cur.data(),n)==0),"load-corrupt","a failed u_buf_load left %zd bytes which are neither the old content nor nothing",n); if(n==0) cur=""; }
      if(chance(1,3)){ NoFault nf; std::string x=rbytes(1+draw(9),0); if(u_buf_append(ub,x.data(),x.size())==0){ cur+=x; CHECKP("C05",u_buf_len(ub)==(ssize_t)cur.size()&&!memcmp(u_buf_ptr(ub),cur.data(),cur.size()),"load-unusable","after u_buf_load the buffer does not accept data properly"); } else fail("C05","load-unusable","after u_buf_load the buffer refuses data"); trace("op append %zu",x.size()); }
    }
  }
  u_buf_free(ub); check_balance("loading files");
}
static Reg r2("load",{"C05"},scen_load,2);

// ---------------------------------------------------------------- copy / move / remove
static void scen_fs(){
  fs_mkdir("/a/d"); baseline(); size_t nops=0; 
  static const char*names[]={"/a/x","/a/y","/b/x","/b/y"};
  for(int i=0;i<4;i++) if(draw(2)) fs_put(names[i],content());
  while(nops<6 && more(3)){ Span sp; nops++;
    if(chance(1,4)){ fs_put(names[draw(4)],content()); }
    if(chance(1,8)) fs_capacity(draw(2),logu(13)); 
    std::string src=names[draw(4)], dst; switch(draw(8)){ case 6: dst=draw(2)?"/nodir/z":"/a/d"; break; case 7: dst=src; break; default: dst=names[draw(4)]; }
    InodeP si=fs_get(src), di=fs_get(dst); bool have=si!=nullptr; std::string sd=have?si->data:""; bool same=src==dst||(si&&si==di); bool badd=dst=="/nodir/z"||dst=="/a/d";
    std::map<std::string,std::string> before; std::map<std::string,InodeP> binode; for(auto&f:fs_list()){ before[f]=fs_data(f); binode[f]=fs_get(f); }
    u64 h0=hard_faults(); int op=draw(3); static const char*nm[]={"u_copy","u_move","u_remove"};
    bool exdev=src.substr(0,2)!=dst.substr(0,2);
    // crash points: what a killed process leaves behind must hold the source content under one of the names
    bool died=false; std::string where;
    auto complete=[&]{ if(!have||op==2) return true; InodeP s=fs_get(src), d=fs_get(dst); if(op==0) return s&&s->data==sd; return (s&&s->data==sd)||(d&&d->data==sd); };
    on_syscall=[&](const char*w){ count_fault(F_CRASH_POINT); if(!died&&!complete()){ died=true; where=w; } };
    int rc= op==0? LIBCALL(u_copy(src.c_str(),dst.c_str())) : op==1? LIBCALL(u_move(src.c_str(),dst.c_str())) : LIBCALL(u_remove(src.c_str()));
    on_syscall=nullptr; bool err=hard_faults()>h0;
    InodeP s2=fs_get(src), d2=fs_get(dst);
    trace("op %s(%s,%s) %zu bytes = %d%s",nm[op],src.c_str(),op==2?"":dst.c_str(),sd.size(),rc,err?" (fault)":"");
    if(died) fail("C06","crash-loss","a process killed right after the %s call inside %s leaves neither name with the complete content (%zu bytes)",where.c_str(),nm[op],sd.size());
    CHECKP("C06",complete(),"lost-data","after %s (result %d) the %zu bytes of %s are not complete under %s",nm[op],rc,sd.size(),src.c_str(),op==0?"the source name":"either name");
    if(op==0){
      if(rc==0){ CHECKP("C06",have,"copy-missing","copying a missing file succeeded"); CHECKP("C06",d2&&d2->data==sd,"copy-incomplete","u_copy reported success but the destination holds %zu of %zu bytes",d2?d2->data.size():0,sd.size()); CHECKP("C06",s2&&s2->data==sd,"copy-source","u_copy changed the source"); probe(exdev?"copied-exdev":"copied"); }
      else CHECKP("C06",err||!have||badd||same,"copy-refused","u_copy failed although no system call failed");
      if(have) CHECKP("C06",s2&&s2->data==sd,"copy-source","u_copy changed the source");
    } else if(op==1){
      if(rc==0){ CHECKP("C06",have,"move-missing","moving a missing file succeeded"); if(!same) CHECKP("C06",s2==nullptr,"move-source-remains","u_move reported success but the source name still exists"); CHECKP("C06",d2&&d2->data==sd,"move-incomplete","u_move reported success but the destination holds %zu of %zu bytes",d2?d2->data.size():0,sd.size()); probe(exdev?"moved-exdev":"moved"); }
      else CHECKP("C06",err||!have||badd||same||di,"move-refused","u_move failed although no system call failed");
    } else {
      if(rc==0) CHECKP("C06",have&&!s2,"remove-false","u_remove reported success but %s",have?"the file is still there":"there was no such file"); else { CHECKP("C06",err||!have,"remove-refused","u_remove failed although no system call failed"); CHECKP("C06",have==(s2!=nullptr),"remove-false-failure","u_remove reported failure but removed the file"); }
    }
    for(auto&e:before) if(e.first!=src&&e.first!=dst&&!(binode[e.first]&&(binode[e.first]==si||binode[e.first]==di))) CHECKP("C06",fs_exists(e.first)&&fs_data(e.first)==e.second,"bystander","%s changed the unrelated file %s",nm[op],e.first.c_str());
    check_balance(nm[op]); fs_capacity(0,~0ull); fs_capacity(1,~0ull);
  }
}
static Reg r3("copy-move",{"C06"},scen_fs,3);

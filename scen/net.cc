// Timed connect (C02), socket creation from addresses (C03), accept (C21) against scripted peers
#include "common.h"
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <netinet/sctp.h>
#include <netinet/tcp.h>
#undef u_net_dummy

namespace {
typedef unsigned long long ull;
u64 mkdelay(){ switch(draw(6)){ case 0: return 0; case 1: return 1+draw(1000); case 2: return 1000+(u64)draw(1000000); case 3: return 1000000ull+(u64)draw(10000000); case 4: return 10000000ull+(u64)draw(100000000); default: return 500000ull*(1+draw(20)); } }
Outcome mkout(){ static const Outcome o[]={O_OK,O_OK,O_OK,O_REFUSED,O_UNREACH,O_BLACKHOLE,O_RESET}; return o[draw(7)]; }
struct timeval mktv(u64 us){ struct timeval t; t.tv_sec=us/1000000; t.tv_usec=us%1000000; return t; }
u64 mktimeout(u64 delay){ switch(draw(6)){ case 0: return 1000000ull*(1+draw(10)); case 1: return 0; case 2: return draw(3000000); case 3: return delay; case 4: return delay+1+draw(2000); default: return delay>1?delay-1-draw(std::min<u64>(delay-1,2000)+1)%delay:1; } }
bool established(Sock*s){ return s->st==2||(s->st==1&&s->t_done<=now_us()&&s->err_done==0); }
}

static void scen_connect(){
  baseline(); faults_allow({F_CONNECT_EINTR,F_CONNECT_ERR,F_SELECT_EINTR,F_SELECT_ERR,F_GETSOCKOPT,F_FCNTL,F_SETSOCKOPT,F_CLOCK_ERR,F_ERRNO_CLOBBER});
  size_t nops=0; while(nops<6&&more(2)){ Span sp; nops++;
    int dom=draw(4); int fam=dom==3?AF_UNIX:dom==2?AF_INET6:AF_INET; bool nb=draw(3)==2; std::vector<int> fill; if(draw(40)==39){ int last=draw(3)?1021+(int)draw(4):1100; do fill.push_back(fd_socket(AF_INET,SOCK_DGRAM,0,false)); while(fill.back()<last); }
    int fd=fd_socket(fam,SOCK_STREAM,0,nb); struct sockaddr_storage ss; memset(&ss,0,sizeof ss); unsigned len;
    if(fam==AF_INET){ auto*s=(sockaddr_in*)&ss; s->sin_family=fam; s->sin_port=htons(80+nops); inet_pton(fam,"10.0.0.1",&s->sin_addr); len=sizeof*s; } else if(fam==AF_INET6){ auto*s=(sockaddr_in6*)&ss; s->sin6_family=fam; s->sin6_port=htons(80+nops); inet_pton(fam,"fe80::1",&s->sin6_addr); len=sizeof*s; } else { auto*s=(sockaddr_un*)&ss; s->sun_family=fam; snprintf(s->sun_path,100,"/s%zu",nops); len=sizeof*s; }
    Peer p{mkout(),mkdelay()}; if(p.outcome==O_BLACKHOLE) p.delay_us=127000000; if(draw(12)==11) { p.outcome=O_BLACKHOLE; p.delay_us=127000000; } net_peer(addr_str(&ss,len),p);
    bool timed=draw(4)!=3; u64 to=mktimeout(p.delay_us); struct timeval tv=mktv(to); u64 t0=now_us(), h0=hard_faults(), k0=fired(F_SELECT_EINTR)+fired(F_CONNECT_EINTR), f0=fired(F_FCNTL), u0=fired(F_CONNECT_EINTR);
    int rc=timed||draw(2)?LIBCALL(u_connect_ex(fd,(struct sockaddr*)&ss,len,timed?&tv:NULL)):LIBCALL(u_connect(fd,(struct sockaddr*)&ss,len));
    u64 dt=now_us()-t0, k=fired(F_SELECT_EINTR)+fired(F_CONNECT_EINTR)-k0; bool err=hard_faults()>h0; (void)u0; if(k) probe("connect-interrupted");
    CHECKP("C20,C02",fd_is_open(fd),"closed-callers-fd","connecting closed the caller's socket"); Sock*s=fd_sock(fd); bool est=established(s); bool pend=s->st==1&&!est&&s->t_done>now_us();
    trace("op connect(%s, timeout %lld us)=%d after %llu us: peer outcome %d after %llu us, %llu interruption(s), now %s",nb?"nonblocking":"blocking",timed?(long long)to:-1ll,rc,(ull)dt,p.outcome,(ull)p.delay_us,(ull)k,est?"established":pend?"pending":"not connected");
    CHECKP("C02",rc==0||rc==-1||rc==-2,"connect-result","u_connect_ex returned %d",rc);
    if(rc==0) CHECKP("C02",est,"connect-false-success","connecting reported success, the connection is %s",pend?"still pending":"not established");
    const u64 G=2000+2000*k; bool determined=p.outcome!=O_BLACKHOLE&&fd<1024;
    if(rc<0&&!err&&fd<1024&&!(timed&&p.delay_us+G>=to)) CHECKP("C02",!est,"connect-false-failure","connecting reported failure %d, the connection is established",rc);
    if(rc==-2&&timed){ CHECKP("C02",dt+G>=to||(p.outcome==O_BLACKHOLE&&dt+G>=p.delay_us),"connect-early-timeout","connecting timed out after %llu us, the timeout is %llu us",(ull)dt,(ull)to); probe("connect-timeout"); }
    if(timed) CHECKP("C02",dt<=to+G||(fd>=1024),"connect-late","connecting took %llu us with a timeout of %llu us and %llu interruption(s)",(ull)dt,(ull)to,(ull)k);
    if(!err){ bool in_time=!timed||p.delay_us+G<to||p.delay_us==0; 
      if(determined&&in_time) CHECKP("C02",rc==(p.outcome==O_OK?0:-1),"connect-outcome","the peer %s after %llu us, connecting (timeout %lld us) returned %d",p.outcome==O_OK?"accepted":"refused",(ull)p.delay_us,timed?(long long)to:-1ll,rc);
      if(timed&&p.delay_us>to+G) CHECKP("C02",fd>=1024||rc==-2,"connect-no-timeout","the peer had not answered when the timeout of %llu us elapsed, connecting returned %d",(ull)to,rc);
      if(p.outcome==O_BLACKHOLE&&fd<1024) CHECKP("C02",rc<0,"connect-outcome","no answer from the peer, connecting returned %d",rc); }
    if(fired(F_FCNTL)==f0) CHECKP("C02",s->nonblock==nb,"connect-mode","the socket was %s before and is %s after connecting (rc %d)",nb?"non-blocking":"blocking",s->nonblock?"non-blocking":"blocking",rc);
    // the mode calls: success exactly when the socket then is in that mode, and nothing else about it changed
    size_t nm=0; while(nm<3&&draw(4)==3){ nm++; int w=draw(3); bool m0=s->nonblock; auto o0=s->opts; static const int sf[]={O_ASYNC,O_APPEND,O_NOATIME|O_ASYNC,0}; if(draw(2)){ s->status=sf[draw(4)]; s->fdflags=draw(2)?FD_CLOEXEC:0; } int st0=s->status, fl0=s->fdflags; u64 g0=fired(F_FCNTL), g1=fired(F_SETSOCKOPT); int r=w==0?LIBCALL(u_net_set_nonblocking(fd)):w==1?LIBCALL(u_net_unset_nonblocking(fd)):LIBCALL(u_net_nagle_off(fd)); trace("op %s=%d",w==0?"set_nonblocking":w==1?"unset_nonblocking":"nagle_off",r); bool ff=w<2?fired(F_FCNTL)>g0:fired(F_SETSOCKOPT)>g1;
      CHECKP("C02,C20",fd_is_open(fd),"mode-closed","a mode call closed the socket"); CHECKP("C02",(r==0)==!ff,"mode-result","a mode call returned %d %s",r,ff?"although the system refused it":"although nothing went wrong"); CHECKP("C02",s->nonblock==(w<2&&!ff?w==0:m0),"mode","the socket is %s after %s returned %d",s->nonblock?"non-blocking":"blocking",w==0?"u_net_set_nonblocking":w==1?"u_net_unset_nonblocking":"u_net_nagle_off",r);
      if(w==2&&!ff){ int v=0; auto i=s->opts.find({IPPROTO_TCP,TCP_NODELAY}); if(i!=s->opts.end()) memcpy(&v,i->second.data(),std::min<size_t>(4,i->second.size())); CHECKP("C02",v!=0,"nagle","u_net_nagle_off succeeded, but TCP_NODELAY is not set"); o0[{IPPROTO_TCP,TCP_NODELAY}]=s->opts[{IPPROTO_TCP,TCP_NODELAY}]; } CHECKP("C02",s->status==st0&&s->fdflags==fl0,"mode-flags","a mode call changed the other flags of the socket (%#x to %#x)",st0,s->status); CHECKP("C02",s->opts==o0,"mode-option","a mode call changed another socket option"); }
    fd_close(fd); for(int x:fill) fd_close(x); }
  check_balance("connecting","C02");
}
static Reg r1("connect",{"C02"},scen_connect,2);

// ------------------------------------------------------------------ sockets from URIs
static void scen_sockets(){
  baseline(); sockev.clear();
  struct Sch { const char*n; int fam,type,proto; }; static const Sch S[]={{"tcp",AF_INET,SOCK_STREAM,IPPROTO_TCP},{"tcp4",AF_INET,SOCK_STREAM,IPPROTO_TCP},{"udp",AF_INET,SOCK_DGRAM,IPPROTO_UDP},{"udp4",AF_INET,SOCK_DGRAM,IPPROTO_UDP},{"tcp6",AF_INET6,SOCK_STREAM,IPPROTO_TCP},{"udp6",AF_INET6,SOCK_DGRAM,IPPROTO_UDP},{"unix",AF_UNIX,SOCK_STREAM,0},{"sctp",AF_INET,SOCK_STREAM,IPPROTO_SCTP},{"sctp4",AF_INET,SOCK_STREAM,IPPROTO_SCTP},{"sctp6",AF_INET6,SOCK_STREAM,IPPROTO_SCTP},{"TCP",AF_INET,SOCK_STREAM,IPPROTO_TCP}};
  const Sch&s=S[draw(11)]; bool srv=draw(2); int na=1+draw(4); std::vector<std::string> cand; bool six=s.fam==AF_INET6; int port=1+draw(65535); bool wildport=draw(10)==9; 
  std::string host, uri; std::vector<std::string> a4,a6; 
  for(int i=0;i<na;i++){ a4.push_back("10.1.0."+std::to_string(i+1)); a6.push_back("fe80::"+std::to_string(i+1)); } net_resolve("many.example",a4,a6);
  bool svc=!wildport&&draw(12)==11; std::string pt=wildport?"*":svc?"http":std::to_string(port); int pn=wildport?0:svc?80:port; bool noaddr=false;
  if(s.fam==AF_UNIX){ std::string path="/sock/"+std::string(draw(20)==19?200:1+draw(40),'s'); uri=std::string(s.n)+"://"+path; noaddr=path.size()>=108; cand.push_back("unix:"+path); }
  else { int hk=draw(6); if(hk<4){ host="many.example"; for(auto&x:six?a6:a4) cand.push_back(six?"["+x+"]:"+std::to_string(pn):x+":"+std::to_string(pn)); } else if(hk==4){ host=six?"[fe80::7]":"10.2.2.2"; cand.push_back(six?"[fe80::7]:"+std::to_string(pn):"10.2.2.2:"+std::to_string(pn)); } else { host=draw(2)?"*":"nowhere.example"; if(host=="*"){ if(six) host="[::]"; else host="*"; if(six) cand.push_back("[::]:"+std::to_string(pn)); else cand.push_back(std::string(srv?"0.0.0.0":"127.0.0.1")+":"+std::to_string(pn)); } else noaddr=true; } if(draw(24)==23){ pt="nosuch-svc"; noaddr=true; } uri=std::string(s.n)+"://"+host+":"+pt; }
  if(s.fam==AF_UNIX){ struct sockaddr_un su; memset(&su,0,sizeof su); su.sun_family=AF_UNIX; snprintf(su.sun_path,108,"%s",uri.c_str()+strlen(s.n)+3); cand[0]=addr_str(&su,sizeof su); }
  bool badmode=false; if(draw(24)==23){ if(draw(3)==2){ badmode=true; } else { static const char*const U[]={"tcpx","tc","udp46","ftp","uni","unixx","sctp5","tcp-4","udp.","x"}; uri=std::string(U[draw(10)])+uri.substr(strlen(s.n)); } noaddr=true; probe("unusable-uri"); }
  int opts=0; if(draw(3)==2) opts|=U_NET_OPT_DONT_REUSE_ADDR; if(draw(6)==5) opts|=U_NET_OPT_DONT_CONNECT; if(draw(4)==3) opts|=U_NET_OPT_DGRAM_BROADCAST; if(s.proto==IPPROTO_SCTP&&draw(2)){ opts|=U_NET_OPT_SCTP_ONE_TO_MANY; for(int b=3;b<12;b++) if(draw(2)) opts|=1<<b; }
  bool sctpmany=opts&U_NET_OPT_SCTP_ONE_TO_MANY; int type=sctpmany?SOCK_SEQPACKET:s.type; u_net_mode_t mode=badmode?(u_net_mode_t)(draw(2)?-1:2+draw(3)):srv?U_NET_SSOCK:U_NET_CSOCK; bool oneshot=draw(3)==2; bool conn=!srv&&!(opts&U_NET_OPT_DONT_CONNECT);
  trace("op uri %s %s opts=0x%x",uri.c_str(),srv?"passive":"active",opts);
  u_net_addr_t*a=NULL; u64 h0=hard_faults(); int rc;
  if(!oneshot){ u64 r0=fired(F_RESOLVE); rc=LIBCALL(u_net_uri2addr(uri.c_str(),mode,&a)); trace("op u_net_uri2addr=%d",rc); bool err=hard_faults()>h0||fired(F_RESOLVE)>r0; if(rc){ CHECKP("C03",err||noaddr,"addr-refused","%s can't be turned into an address although nothing failed",uri.c_str()); CHECKP("C03",a==NULL,"addr-refused","a failed u_net_uri2addr hands out an address"); check_balance("u_net_uri2addr"); end_run(); } CHECKP("C03",!noaddr,"addr-bogus","%s became an address",uri.c_str());
    if(draw(2)) u_net_addr_set_opts(a,opts); else { int o1=opts&draw(1<<21); u_net_addr_set_opts(a,o1); u_net_addr_add_opts(a,opts&~o1); } CHECKP("C03",!u_net_addr_can_accept(a),"can-accept","an address never used is said to be able to accept"); }
  size_t rounds=0; while(rounds<5&&(rounds==0||more(2))){ Span sp; rounds++;
    // this round's network
    bool timed=draw(2); u64 to=1000000ull*(1+draw(5)); struct timeval tv=mktv(to); std::vector<int> good; for(size_t i=0;i<cand.size();i++){ Peer p{mkout(),mkdelay()}; int be=draw(3)==2?EADDRNOTAVAIL:0; if(type==SOCK_DGRAM&&p.outcome!=O_UNREACH) p.outcome=O_OK; if(type==SOCK_DGRAM) p.delay_us=0; if(p.outcome==O_BLACKHOLE) p.delay_us=127000000; net_peer(cand[i],p); net_bind_error(cand[i],be); int g; if(srv) g=!be; else if(!conn) g=1; else g=p.outcome!=O_OK?0:(!timed||p.delay_us+100000<to)?1:p.delay_us>to+100000?0:2; good.push_back(g); }
    int fds0=fd_count(); size_t e0=sockev.size(); u64 hh=hard_faults(), r0=fired(F_RESOLVE), sl0=fired(F_SOCKET)+fired(F_LISTEN)+fired(F_SETSOCKOPT); u64 t0=now_us();
    int sd=oneshot?(timed||draw(2)?LIBCALL(u_net_sd_ex(uri.c_str(),mode,opts,timed?&tv:NULL)):LIBCALL(u_net_sd(uri.c_str(),mode,opts))):(timed||draw(2)?LIBCALL(u_net_sd_by_addr_ex(a,timed?&tv:NULL)):LIBCALL(u_net_sd_by_addr(a)));
    int g0=-1; for(size_t i=0;i<good.size();i++) if(good[i]){ g0=i; break; } bool injected=false; size_t att=0; for(size_t i=e0;i<sockev.size();i++){ if(sockev[i].what=="socket") att++; if(sockev[i].what=="setsockopt"&&sockev[i].rc<0&&(opts&U_NET_OPT_SCTP_ONE_TO_MANY)&&s.proto!=IPPROTO_SCTP) injected=true; } if(fired(F_SOCKET)+fired(F_LISTEN)+fired(F_SETSOCKOPT)>sl0) injected=true; /* a listen() the system refuses on its own is the library's fault */
    bool err=hard_faults()>hh; std::string gs; for(int g:good) gs+="01?"[g]; trace("op socket round %zu: candidates %s timeout %lld -> %d after %llu us, %zu attempt(s)",rounds,gs.c_str(),timed?(long long)to:-1ll,sd,(ull)(now_us()-t0),att);
    CHECKP("C03",sd>=-1,"sd-result","the result is %d",sd);
    CHECKP("C03,C20",fd_count()==fds0+(sd>=0),"sd-leak","%d descriptor(s) are open after the call that was to return %s",fd_count()-fds0,sd>=0?"one":"none");
    if(sd<0){ // failure: every candidate must have failed
      if(noaddr) { CHECKP("C03",att==0,"sd-bogus","sockets were made for an unusable address"); continue; }
      if(fired(F_RESOLVE)==r0&&!err&&!injected) CHECKP("C03",g0<0||good[g0]==2,"sd-refused","no socket although candidate %d (%s) works",g0,g0>=0?cand[g0].c_str():"");
      if(!oneshot&&att<cand.size()) fail("C03","sd-gave-up","the call failed after trying %zu of %zu addresses",att,cand.size());
      if(!srv) probe("all-candidates-failed"); continue; }
    CHECKP("C03",!noaddr,"sd-bogus","%s gave a socket",uri.c_str()); CHECKP("C03",fd_is_open(sd),"sd-closed","the returned descriptor is closed"); Sock*k=fd_sock(sd); CHECKP("C03",k!=NULL,"sd-kind","the returned descriptor is no socket");
    CHECKP("C03",k->domain==s.fam&&k->type==type&&k->proto==(s.fam==AF_UNIX?0:s.proto),"sd-kind","%s gave a socket of family %d type %d protocol %d",uri.c_str(),k->domain,k->type,k->proto);
    std::string got=srv?k->baddr:k->caddr; int gi=-1; for(size_t i=0;i<cand.size();i++) if(cand[i]==got) gi=i;
    if(srv||conn){ CHECKP("C03",gi>=0,"sd-address","the socket is %s %s, none of the resolved addresses",srv?"bound to":"connected to",got.c_str());
      CHECKP("C03",good[gi]!=0,"sd-unusable","the socket returned is for address %s, which does not work",got.c_str());
      for(int j=0;j<gi;j++) if(good[j]==1&&!err&&!injected) fail("C03","sd-skipped","address %s was used although the earlier %s works",got.c_str(),cand[j].c_str());
      CHECKP("C03",att==(size_t)gi+1||err||injected,"sd-attempts","address number %d was used after %zu attempts",gi+1,att); CHECKP("C03",att<=(size_t)gi+1,"sd-attempts","address number %d was used after %zu attempts",gi+1,att); if(gi) probe("later-candidate-used"); }
    else CHECKP("C03",k->st==0&&!k->bound,"sd-connected","the socket was to be left unconnected");
    if(srv){ CHECKP("C03",k->bound,"sd-unbound","the passive socket is not bound"); bool reuse=k->opts.count({SOL_SOCKET,SO_REUSEADDR}); int rv=0; if(reuse) memcpy(&rv,k->opts[{SOL_SOCKET,SO_REUSEADDR}].data(),4); bool want=s.fam!=AF_UNIX&&!(opts&U_NET_OPT_DONT_REUSE_ADDR); CHECKP("C03",(reuse&&rv)==want,"sd-reuse","address reuse is %s on the passive socket",reuse&&rv?"enabled":"not enabled"); 
      bool lis=type!=SOCK_DGRAM; CHECKP("C03",k->listening==lis,"sd-listen","the passive socket is %slistening",k->listening?"":"not "); if(lis) CHECKP("C03",k->backlog>0,"sd-listen","the passive socket listens with backlog %d",k->backlog);
      size_t ib=0,ir=0; for(size_t i=e0;i<sockev.size();i++) if(sockev[i].fd==sd){ if(sockev[i].what=="bind") ib=i; if(sockev[i].what=="setsockopt"&&sockev[i].arg==std::to_string(SOL_SOCKET)+"/"+std::to_string(SO_REUSEADDR)) ir=i; } CHECKP("C03",!want||ir<ib,"sd-reuse","address reuse was enabled only after binding"); }
    else { if(conn&&type!=SOCK_DGRAM) CHECKP("C03",established(k),"sd-unconnected","the active socket is not connected"); bool bc=k->opts.count({SOL_SOCKET,SO_BROADCAST}); int bv=0; if(bc) memcpy(&bv,k->opts[{SOL_SOCKET,SO_BROADCAST}].data(),4); CHECKP("C03",(bc&&bv)==(type==SOCK_DGRAM&&(opts&U_NET_OPT_DGRAM_BROADCAST)),"sd-broadcast","broadcast is %s",bc&&bv?"enabled":"not enabled");
      CHECKP("C02",!k->nonblock||injected||err,"connect-mode","the connected socket returned is non-blocking"); CHECKP("C03",!k->bound&&!k->listening,"sd-kind","the active socket is bound or listening"); }
    if(sctpmany){ auto i=k->opts.find({IPPROTO_SCTP,SCTP_EVENTS}); CHECKP("C03",i!=k->opts.end(),"sd-sctp","the SCTP notifications are not set"); struct sctp_event_subscribe e; memset(&e,0,sizeof e); memcpy(&e,i->second.data(),std::min(sizeof e,i->second.size())); auto b=[&](int o){ return (opts&o)?1:0; }; CHECKP("C03",e.sctp_data_io_event==b(U_NET_OPT_SCTP_DATA_IO_EVENT)&&e.sctp_association_event==b(U_NET_OPT_SCTP_ASSOCIATION_EVENT)&&e.sctp_address_event==b(U_NET_OPT_SCTP_ADDRESS_EVENT)&&e.sctp_send_failure_event==b(U_NET_OPT_SCTP_SEND_FAILURE_EVENT)&&e.sctp_peer_error_event==b(U_NET_OPT_SCTP_PEER_ERROR_EVENT)&&e.sctp_shutdown_event==b(U_NET_OPT_SCTP_SHUTDOWN_EVENT)&&e.sctp_partial_delivery_event==b(U_NET_OPT_SCTP_PARTIAL_DELIVERY_EVENT)&&e.sctp_adaptation_layer_event==b(U_NET_OPT_SCTP_ADAPTATION_LAYER_EVENT)&&e.sctp_authentication_event==b(U_NET_OPT_SCTP_AUTHENTICATION_EVENT),"sd-sctp","the SCTP notifications set are not the requested ones"); for(size_t b=offsetof(struct sctp_event_subscribe,sctp_authentication_event)+1;b<sizeof e;b++) CHECKP("C03",((u8*)&e)[b]==0,"sd-sctp","SCTP notification number %zu is enabled, nobody asked for it",b); }
    if(!oneshot) CHECKP("C03",!!u_net_addr_can_accept(a)==(srv&&type!=SOCK_DGRAM),"can-accept","u_net_addr_can_accept says %d for a %s socket of type %d",u_net_addr_can_accept(a),srv?"passive":"active",type);
    // data must flow over the descriptor's address object a second time: close and go on
    fd_close(sd); }
  if(a) LIBVOID(u_net_addr_free(a)); check_balance("creating sockets","C03");
}
static Reg r2("sockets",{"C03","C02"},scen_sockets,1);

// ------------------------------------------------------------------ accept
static void scen_accept(){
  baseline(); int fd=fd_socket(AF_INET,SOCK_STREAM,0,draw(8)==7); Sock*l=fd_sock(fd); l->listening=true; int n=1+draw(6); u64 t=now_us(); static const int es[]={ECONNABORTED,EPROTO,EMFILE}; std::vector<int> want;
  for(int i=0;i<n;i++){ t+=draw(3)?draw(5000000):0; int e=draw(5)==4?es[draw(3)]:0; l->arrivals.push_back({t,e,100+i}); }
  std::vector<int> got; size_t nops=0; while(nops<30&&l->next_arrival<l->arrivals.size()){ nops++; size_t na0=l->next_arrival; u64 h0=hard_faults(), a0=fired(F_ACCEPT_ERR); struct sockaddr_in sa; u_socklen_t sl=sizeof sa; memset(&sa,0,sizeof sa); bool wa=draw(2); bool ready=l->arrivals[na0].at<=now_us(); errno=0; int nfd=fd_count();
    int ad=LIBCALL(u_accept(fd,wa?(struct sockaddr*)&sa:NULL,wa?&sl:NULL)); int e=errno; bool err=hard_faults()>h0||fired(F_ACCEPT_ERR)>a0; size_t taken=l->next_arrival-na0; trace("op u_accept=%d errno %d",ad,ad<0?e:0);
    CHECKP("C21",taken<=1,"accept-lost","one u_accept took %zu connections",taken);
    if(ad<0){ CHECKP("C21",ad==-1,"accept-result","u_accept returned %d",ad); CHECKP("C21",e!=EINTR,"accept-eintr","u_accept failed because a signal interrupted it"); if(taken) CHECKP("C21",l->arrivals[na0].err!=0,"accept-lost","u_accept failed but took connection %d",l->arrivals[na0].id); CHECKP("C21",err||(l->nonblock&&!ready),"accept-failed","u_accept failed (errno %d) although a connection was coming in",e); CHECKP("C21,C20",fd_count()==nfd,"accept-leak","a failed u_accept left a descriptor open"); if(l->nonblock) advance(100000); continue; }
    CHECKP("C21",taken==1&&l->arrivals[na0].err==0,"accept-bogus","u_accept returned %d but no connection was taken",ad); Sock*c=fd_sock(ad); CHECKP("C21",c&&fd_is_open(ad)&&c->conn_id==l->arrivals[na0].id,"accept-bogus","u_accept returned descriptor %d, not the accepted connection",ad); if(wa) CHECKP("C21",ntohs(sa.sin_port)==10000+c->conn_id,"accept-addr","u_accept reports a wrong peer address"); CHECKP("C21,C20",fd_count()==nfd+1,"accept-leak","u_accept opened %d descriptors",fd_count()-nfd); fd_close(ad); }
  CHECKP("C20",fd_is_open(fd),"closed-callers-fd","accepting closed the listening socket"); fd_close(fd); check_balance("accepting","C21");
}
static Reg r3("accept",{"C21"},scen_accept,1);

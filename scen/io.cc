// Exact-length I/O (C01), sleep (C21)
#include "common.h"

static void scen_read(){
  baseline();
  std::string D=rbytes(logu(9),1); int ee=0; if(chance(1,4)){ static const int es[]={EIO,ECONNRESET,EAGAIN}; ee=es[draw(3)]; }
  bool isfile=chance(1,5); int fd;
  if(isfile){ fs_put("/a/in",D); fd=fd_open_file("/a/in",O_RDONLY); } else fd=fd_stream_in(D,ee,true);
  trace("source of %zu bytes%s",D.size(),isfile?" (file)":ee?" ending in an error":"");
  size_t nops=0;
  while(nops<12 && more(4)){ Span sp; nops++;
    size_t left=D.size()-fd_consumed(fd); size_t L; switch(draw(4)){ case 0: L=logu(6); break; case 1: L=left; break; case 2: L=left+1+draw(4); break; default: L=left?draw(left+1):0; }
    u8*buf=(u8*)malloc(L+1); memset(buf,0x5a,L+1); u8*b=(u8*)malloc(L?L:1); 
    u64 p0=fd_consumed(fd), h0=hard_faults(); int api=draw(4); ssize_t n=-77; int eof=-77; ssize_t rr=0; int rc=0;
    switch(api){
      case 0: rc=LIBCALL(u_io((iof_t)sim_read,fd,b,L,&n,&eof)); break;
      case 1: rr=LIBCALL(u_read(fd,b,L)); break;
      case 2: rc=LIBCALL(u_io((iof_t)sim_read,fd,b,L,NULL,NULL)); break;
      case 3: rc=LIBCALL(u_io((iof_t)sim_read,fd,b,L,chance(1,2)?&n:NULL,&eof)); if(n==-77) n=-1; break;
    }
    u64 got=fd_consumed(fd)-p0; bool err=hard_faults()>h0; bool short_=got<L;
    trace("op %s(L=%zu): rc=%d ret=%zd n=%zd eof=%d, really consumed %llu%s",api==1?"u_read":"u_io/read",L,rc,rr,n,eof,(unsigned long long)got,err?" (error injected)":"");
    CHECKP("C01",got<=L,"over-read","asked for %zu bytes, %llu were taken from the stream",L,(unsigned long long)got);
    CHECKP("C01",memcmp(b,D.data()+p0,got)==0,"read-data","the %llu bytes taken from the stream are not the bytes in the caller's buffer (in order, once)",(unsigned long long)got);
    if(api==1){
      if(!short_) CHECKP("C01",rr==(ssize_t)L,"u_read-result","all %zu bytes were read, u_read returned %zd",L,rr);
      else if(err) CHECKP("C01",rr==-1,"u_read-error","a read error stopped the transfer after %llu of %zu bytes, u_read returned %zd",(unsigned long long)got,L,rr);
      else { CHECKP("C01",rr==(ssize_t)got,"u_read-eof","end of file after %llu of %zu bytes, u_read returned %zd",(unsigned long long)got,L,rr); probe("read-eof"); }
    } else {
      CHECKP("C01",(rc==0)==!short_,"u_io-result","%llu of %zu bytes transferred, u_io returned %d",(unsigned long long)got,L,rc);
      if(api!=2&&n!=-1) CHECKP("C01",n==(ssize_t)got,"u_io-count","%llu bytes transferred, count reported is %zd",(unsigned long long)got,n);
      if(api!=2) CHECKP("C01",eof==((short_&&!err)?1:0),"u_io-eof","eof flag is %d after %llu of %zu bytes (%s)",eof,(unsigned long long)got,L,err?"read error":"no error");
    }
    if(short_&&!err&&p0+got<D.size()) fail("C01","gave-up","the call gave up after %llu of %zu bytes although neither EOF nor an error was met",(unsigned long long)got,L);
    CHECKP("C01",hard_faults()-h0<=1,"retry-after-error","the call went on after a hard error (%llu errors in one call)",(unsigned long long)(hard_faults()-h0));
    free(buf); free(b);
  }
  CHECKP("C20",fd_is_open(fd),"closed-callers-fd","the caller's descriptor was closed");
  fd_close(fd); 
}
static Reg r1("io-read",{"C01"},scen_read,2);

static void scen_write(){
  baseline();
  u64 limit=chance(1,3)?draw(200):~0ull; static const int es[]={EPIPE,ENOSPC,EIO}; bool isfile=chance(1,5); int fd;
  if(isfile){ fs_put("/a/out",""); if(chance(1,2)) fs_capacity(0,draw(300)); fd=fd_open_file("/a/out",O_WRONLY); } else fd=fd_stream_out(limit,es[draw(3)]);
  auto sofar=[&]{ return isfile?fs_data("/a/out"):fd_taken(fd); };
  size_t nops=0;
  while(nops<12 && more(4)){ Span sp; nops++;
    size_t L=draw(3)?logu(8):logu(4); std::string d=rbytes(L,1); char*b=(char*)malloc(L?L:1); memcpy(b,d.data(),L); std::string s0=sofar(); u64 h0=hard_faults(); ssize_t n=-77; int eof=-77,rc=0; ssize_t rr=0; int api=draw(3);
    if(api==0) rc=LIBCALL(u_io((iof_t)sim_write,fd,b,L,&n,&eof)); else if(api==1) rr=LIBCALL(u_write(fd,b,L)); else rc=LIBCALL(u_io((iof_t)sim_write,fd,b,L,NULL,NULL));
    std::string s1=sofar(); u64 put=s1.size()-s0.size(); bool err=hard_faults()>h0;
    trace("op %s(L=%zu): rc=%d ret=%zd n=%zd eof=%d, really written %llu",api==1?"u_write":"u_io/write",L,rc,rr,n,eof,(unsigned long long)put);
    CHECKP("C01",put<=L && s1.compare(s0.size(),put,d,0,put)==0 && s1.compare(0,s0.size(),s0)==0,"write-data","the peer received %s where a prefix of %s was due",q(s1.substr(s0.size())).c_str(),q(d).c_str());
    CHECKP("C01",memcmp(b,d.data(),L)==0,"write-buffer","the caller's data was modified");
    if(api==1) CHECKP("C01",rr==(put==L?(ssize_t)L:-1),"u_write-result","%llu of %zu bytes written, u_write returned %zd",(unsigned long long)put,L,rr);
    else { CHECKP("C01",(rc==0)==(put==L),"u_io-result","%llu of %zu bytes written, u_io returned %d",(unsigned long long)put,L,rc); if(api==0){ CHECKP("C01",n==(ssize_t)put,"u_io-count","%llu bytes written, count reported is %zd",(unsigned long long)put,n); CHECKP("C01",eof==0,"u_io-eof","eof flag set by a write"); } }
    if(put<L&&!err) fail("C01","gave-up","the write gave up after %llu of %zu bytes without an error",(unsigned long long)put,L);
    CHECKP("C01",hard_faults()-h0<=1,"retry-after-error","the call went on after a hard error");
    free(b);
  }
  CHECKP("C20",fd_is_open(fd),"closed-callers-fd","the caller's descriptor was closed");
  fd_close(fd);
}
static Reg r2("io-write",{"C01"},scen_write,2);

static void scen_sleep(){
  baseline();
  size_t nops=0; while(nops<8 && more(3)){ Span sp; nops++;
    unsigned secs; switch(draw(8)){ case 6: secs=logu(16); break; case 7: { static const unsigned e[]={INT_MAX,(unsigned)INT_MAX+1,UINT_MAX,0x80000000u,65536,1u<<24}; secs=e[draw(6)]; if(draw(2)) secs-=draw(1000); probe("sleep-huge"); break; } default: secs=logu(7); } u64 t0=now_us(), f0=fired(F_SLEEP_EINTR),h0=hard_faults(); errno=draw(3)?0:EIO; int rc=LIBCALL(u_sleep(secs)); u64 dt=now_us()-t0, k=fired(F_SLEEP_EINTR)-f0;
    trace("op u_sleep(%u)=%d: %llu us passed, %llu interruption(s)",secs,rc,(unsigned long long)dt,(unsigned long long)k); if(k) probe("sleep-interrupted");
    CHECKP("C21",rc==0||rc==-1,"sleep-result","u_sleep returned %d",rc);
    if(hard_faults()==h0) CHECKP("C21",rc==0,"sleep-failed","u_sleep(%u) returned %d though only interrupted by signals (%llu times)",secs,rc,(unsigned long long)k);
    if(rc==0) CHECKP("C21",dt+k*1000000>=(u64)secs*1000000,"sleep-short","u_sleep(%u) succeeded after %llu us with %llu interruption(s)",secs,(unsigned long long)dt,(unsigned long long)k);
    CHECKP("C21",dt<=(u64)secs*1000000+k*1000000+1000+(u64)secs*20,"sleep-long","u_sleep(%u) took %llu us with %llu interruption(s)",secs,(unsigned long long)dt,(unsigned long long)k);
  }
}
static Reg r3("sleep",{"C21"},scen_sleep,1);

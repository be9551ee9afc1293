#include <sys/syscall.h>
#include <unistd.h>
// Simulated kernel: descriptors, files, streams, sockets, clock, processes, environment.
#include "internal.h"
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <signal.h>
#include <syslog.h>
#include <time.h>
#include <setjmp.h>
#include <dirent.h>

namespace sim {
u64 now_us(){ return clock_us; }
void advance(u64 us){ clock_us+=us; }

// ================================================================ file system
static std::map<std::string,InodeP> names; static std::set<std::string> dirs; static u64 next_ino=100; static u64 cap[2]={~0ull,~0ull};
static std::string norm(const char*p){ std::string s=p; if(s.empty()) return s; if(s[0]!='/') s="/a/"+s; std::string o; for(size_t i=0;i<s.size();){ if(s[i]=='/'){ while(i<s.size()&&s[i]=='/')i++; if(i+1<=s.size()&&s[i]=='.'&&(i+1==s.size()||s[i+1]=='/')){ i++; continue; } if(i<s.size()) o+='/'; } else o+=s[i++]; } if(o.empty())o="/"; return o; }
static int devof(const std::string&p){ return p.compare(0,3,"/b/")==0||p=="/b"; }
static std::string parent(const std::string&p){ size_t k=p.rfind('/'); return k==0?"/":p.substr(0,k); }
static u64 used(int dev){ u64 t=0; std::set<Inode*> seen; for(auto&e:names) if(e.second->dev==dev && seen.insert(e.second.get()).second) t+=e.second->data.size(); return t; }
static i64 sim_secs(){ return clock_us/1000000; }
void fs_put(const std::string&path,const std::string&data){ std::string p=norm(path.c_str()); auto&i=names[p]; if(!i){ i=std::make_shared<Inode>(); i->id=next_ino++; i->dev=devof(p);} i->data=data; i->mtime=sim_secs(); }
bool fs_exists(const std::string&path){ return names.count(norm(path.c_str()))||dirs.count(norm(path.c_str())); }
InodeP fs_get(const std::string&path){ auto i=names.find(norm(path.c_str())); return i==names.end()?nullptr:i->second; }
std::string fs_data(const std::string&path){ auto i=fs_get(path); return i?i->data:std::string(); }
void fs_rm(const std::string&path){ auto i=names.find(norm(path.c_str())); if(i!=names.end()){ i->second->nlink--; names.erase(i);} }
void fs_mkdir(const std::string&p){ dirs.insert(norm(p.c_str())); }
void fs_capacity(int dev,u64 b){ cap[dev]=b; }
void fs_touch(const std::string&path,i64 t){ auto i=fs_get(path); if(i) i->mtime=t; }
std::vector<std::string> fs_list(){ std::vector<std::string> v; for(auto&e:names) v.push_back(e.first); return v; }

// ================================================================ descriptors
enum FT { T_FILE, T_IN, T_OUT, T_SOCK };
struct OF { FT t; InodeP ino; u64 off=0; int flags=0; std::string data; u64 pos=0; int end_errno=0; u64 limit=~0ull; bool slow=false; int style=-1; std::shared_ptr<Sock> sk; std::string path; int realfd=-1; bool isdir=false; bool harness=false; bool nospc=false; };
typedef std::shared_ptr<OF> OFP;
static std::map<int,OFP> fds; static std::map<int,int> fdflags;
static std::map<FILE*,int> streams; static std::map<FILE*,char*> sbuf; static std::set<FILE*> popens; static std::map<FILE*,int> pstatus;
static int newfd(OFP o,int min=3){ int f=min; while(fds.count(f)) f++; if(f>=1400){ errno=EMFILE; return -1;} fds[f]=o; return f; }
static OFP getfd(int fd){ auto i=fds.find(fd); if(i==fds.end()){ errno=EBADF; return nullptr;} return i->second; }
int fd_stream_in(const std::string&d,int ee,bool slow){ auto o=std::make_shared<OF>(); o->t=T_IN; o->data=d; o->end_errno=ee; o->slow=slow; return newfd(o); }
int fd_stream_out(u64 limit,int ee){ auto o=std::make_shared<OF>(); o->t=T_OUT; o->limit=limit; o->end_errno=ee; o->slow=true; return newfd(o); }
std::string fd_taken(int fd){ auto o=getfd(fd); return o?o->data:std::string(); }
u64 fd_consumed(int fd){ auto o=getfd(fd); return o?(o->t==T_FILE?o->off:o->pos):0; }
bool fd_is_open(int fd){ return fds.count(fd)!=0; }
int fd_count(){ return fds.size(); }
std::string fd_describe(){ std::string s; for(auto&e:fds){ char b[200]; static const char*n[]={"file","pipe-in","pipe-out","socket"}; snprintf(b,200,"%d=%s%s%s ",e.first,n[e.second->t],e.second->path.empty()?"":":",e.second->path.c_str()); s+=b; } return s; }
static void drop(int fd){ auto i=fds.find(fd); if(i==fds.end()) return; if(i->second.use_count()==1 && i->second->realfd>=0) close(i->second->realfd); fds.erase(i); }
void fd_close(int fd){ drop(fd); }
i64 fd_lseek(int fd,i64 off){ auto o=getfd(fd); if(!o) return -1; o->off=off; return off; }
int stream_count(){ return streams.size(); }
static void ub(const char*rule,const char*fmt,...){ char b[300]; va_list ap; va_start(ap,fmt); vsnprintf(b,300,fmt,ap); va_end(ap); fail(active_prop,rule,"%s",b); }

static int chunk_style(OFP o){ if(o->style<0) o->style=draw(5); return o->style; }
static size_t chunk(OFP o,size_t n){ if(n<=1) return n; switch(chunk_style(o)){ case 1: return 1; case 2: return 1+draw(n<8?n:8); case 3: return 1+draw(n); case 4: return chance(1,4)? 1+draw(n):n; default: return n; } }

static int do_open(const char*path,int flags,int mode){
  step("open"); (void)mode;
  if(!path||!*path){ errno=ENOENT; return -1; }
  std::string p=norm(path); int acc=flags&O_ACCMODE;
  if(fault(F_OPEN)){ static const int es[]={EACCES,EMFILE,EIO,ENOENT}; errno=es[draw(4)]; return -1; }
  auto o=std::make_shared<OF>(); o->t=T_FILE; o->flags=flags; o->path=p;
  if(dirs.count(p)){ if(acc!=O_RDONLY||(flags&O_CREAT)){ errno=EISDIR; return -1;} o->isdir=true; return newfd(o); }
  auto i=names.find(p);
  if(i==names.end()){
    if(!(flags&O_CREAT)){ errno=ENOENT; return -1; }
    if(!dirs.count(parent(p))){ errno=ENOENT; return -1; }
    auto n=std::make_shared<Inode>(); n->id=next_ino++; n->dev=devof(p); n->mtime=sim_secs(); names[p]=n; o->ino=n;
  } else { if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; } o->ino=i->second; 
    if((flags&O_TRUNC)&&acc!=O_RDONLY){ o->ino->data.clear(); o->ino->mtime=sim_secs(); } }
  int fd=newfd(o); trace("  open(%s,0x%x)=%d",p.c_str(),flags,fd); sys_done("open"); return fd;
}
int fd_open_file(const std::string&p,int flags){ NoFault nf; int fd=do_open(p.c_str(),flags,0644); if(fd>=0) fds[fd]->harness=true; return fd; }
static ssize_t do_read(int fd,void*buf,size_t n,i64 at=-1){
  step("read"); auto o=getfd(fd); if(!o) return -1; ssize_t r;
  if(o->t==T_FILE){
    if((o->flags&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; } if(o->isdir){ errno=EISDIR; return -1; }
    if(fault(F_READ_ERR)){ errno=EIO; trace("  read(%d,%zu)=EIO",fd,n); return -1; }
    u64 off=at>=0?(u64)at:o->off; size_t av=off<o->ino->data.size()?o->ino->data.size()-off:0; size_t k=av<n?av:n;
    if(k>1&&fault(F_READ_SHORT)) k=1+draw(k-1);
    memcpy(buf,o->ino->data.data()+off,k); if(at<0) o->off+=k; r=k;
  } else if(o->t==T_IN||o->t==T_SOCK){
    if(n && fault(F_READ_EINTR)){ errno=EINTR; trace("  read(%d)=EINTR",fd); return -1; }
    if(fault(F_READ_ERR)){ static const int es[]={EIO,ECONNRESET,ETIMEDOUT,EBADF}; errno=es[draw(4)]; trace("  read(%d)=errno %d",fd,errno); return -1; }
    if(fault(F_READ_EAGAIN)){ errno=EAGAIN; trace("  read(%d)=EAGAIN",fd); return -1; }
    size_t av=o->data.size()-o->pos; size_t k=av<n?av:n;
    if(!k){ if(n&&o->end_errno){ errno=o->end_errno; count_fault(F_READ_ERR); trace("  read(%d)=errno %d",fd,errno); return -1; } r=0; }
    else { size_t c=chunk(o,k); if(c<k) count_fault(F_READ_SHORT); memcpy(buf,o->data.data()+o->pos,c); o->pos+=c; r=c; clock_us+=10; }
  } else { errno=EBADF; return -1; }
  trace("  read(%d,%zu)=%zd",fd,n,r); return r;
}
static ssize_t do_write(int fd,const void*buf,size_t n,i64 at=-1){
  step("write"); auto o=getfd(fd); if(!o) return -1; ssize_t r;
  if(o->t==T_FILE){
    if((o->flags&O_ACCMODE)==O_RDONLY){ errno=EBADF; return -1; }
    if(fault(F_WRITE_ERR)){ errno=EIO; trace("  write(%d)=EIO",fd); sys_done("write"); return -1; }
    if(n&&o->nospc){ o->nospc=false; S->hard++; errno=ENOSPC; trace("  write(%d)=ENOSPC",fd); return -1; }
    if(n&&fault(F_WRITE_ENOSPC)){ size_t part=n>1?draw(n):0; if(!part){ errno=ENOSPC; trace("  write(%d)=ENOSPC",fd); return -1; } n=part; S->hard--; o->nospc=true; /* partial transfer now, the error on the next write */ }
    size_t k=n; if(k>1&&fault(F_WRITE_SHORT)) k=1+draw(k-1);
    auto&d=o->ino->data; u64 off=at>=0?(u64)at:(o->flags&O_APPEND)?d.size():o->off; 
    if(cap[o->ino->dev]!=~0ull){ u64 grow=off+k>d.size()?off+k-d.size():0; u64 u=used(o->ino->dev); u64 room=cap[o->ino->dev]>u?cap[o->ino->dev]-u:0; if(grow>room){ u64 cut=grow-room; if(cut>=k){ count_fault(F_WRITE_ENOSPC); errno=ENOSPC; trace("  write(%d)=ENOSPC",fd); return -1; } k-=cut; } }
    if(off>d.size()) d.resize(off,0); if(off+k>d.size()) d.resize(off+k); memcpy(&d[off],buf,k); if(at<0) o->off=off+k; o->ino->mtime=sim_secs(); r=k;
  } else if(o->t==T_OUT||o->t==T_SOCK){
    if(n && fault(F_WRITE_EINTR)){ errno=EINTR; trace("  write(%d)=EINTR",fd); return -1; }
    if(fault(F_WRITE_ERR)){ static const int es[]={EPIPE,ECONNRESET,EIO,EBADF}; errno=es[draw(4)]; trace("  write(%d)=errno %d",fd,errno); return -1; }
    size_t room=o->limit-o->data.size(); if(n&&!room){ errno=o->end_errno?o->end_errno:EPIPE; count_fault(F_WRITE_ERR); trace("  write(%d)=errno %d",fd,errno); return -1; }
    size_t k=n<room?n:room; size_t c=k?chunk(o,k):0; if(c<n) count_fault(F_WRITE_SHORT); o->data.append((const char*)buf,c); r=c; clock_us+=10;
  } else { errno=EBADF; return -1; }
  trace("  write(%d,%zu)=%zd",fd,n,r); sys_done("write"); return r;
}
static int do_close(int fd,const char*who){
  step("close"); if(fd<0){ errno=EBADF; return -1; }
  auto i=fds.find(fd); if(i==fds.end()){ trace("  %s(%d)=EBADF",who,fd); soft_fail("C20","double-close","the library closed descriptor %d, which is not open (already closed)",fd); errno=EBADF; return -1; }
  bool h=i->second->harness; drop(fd); (void)h;
  if(fault(F_CLOSE_ERR)){ errno=EIO; trace("  %s(%d)=EIO",who,fd); sys_done("close"); return -1; }
  trace("  %s(%d)=0",who,fd); sys_done("close"); return 0;
}

// ================================================================ sockets
static std::map<std::string,Peer> peers; static std::map<std::string,int> binderr; std::vector<SockEv> sockev; static std::map<std::string,std::pair<std::vector<std::string>,std::vector<std::string>>> hosts; static int next_conn=1;
void net_peer(const std::string&a,Peer p){ peers[a]=p; }
void net_bind_error(const std::string&a,int e){ if(e) binderr[a]=e; else binderr.erase(a); }
void net_resolve(const std::string&h,std::vector<std::string> a4,std::vector<std::string> a6){ hosts[h]={a4,a6}; }
Sock*fd_sock(int fd){ auto i=fds.find(fd); return i==fds.end()?nullptr:i->second->sk.get(); }
int fd_socket(int d,int t,int p,bool nb){ auto o=std::make_shared<OF>(); o->t=T_SOCK; o->slow=true; o->sk=std::make_shared<Sock>(); o->sk->domain=d;o->sk->type=t;o->sk->proto=p;o->sk->nonblock=nb; return newfd(o); }
std::string addr_str(const void*v,unsigned len){ const sockaddr*sa=(const sockaddr*)v; char b[200],t[128]; if(!sa||len<sizeof(sa_family_t)) return "?"; if(sa->sa_family==AF_INET){ const sockaddr_in*s=(const sockaddr_in*)sa; inet_ntop(AF_INET,&s->sin_addr,t,128); snprintf(b,200,"%s:%d",t,ntohs(s->sin_port)); return b;} if(sa->sa_family==AF_INET6){ const sockaddr_in6*s=(const sockaddr_in6*)sa; inet_ntop(AF_INET6,&s->sin6_addr,t,128); snprintf(b,200,"[%s]:%d",t,ntohs(s->sin6_port)); return b;} if(sa->sa_family==AF_UNIX) return std::string("unix:")+((const sockaddr_un*)sa)->sun_path; return "?"; }
static void ev(const char*w,int fd,const std::string&a,int rc){ int e=errno; sockev.push_back({w,fd,a,rc,rc<0?e:0}); trace("  %s(%d,%s)=%d%s%s",w,fd,a.c_str(),rc,rc<0?" errno ":"",rc<0?std::to_string(e).c_str():""); errno=e; }
static void settle(Sock*s){ if(s->st==1&&clock_us>=s->t_done){ if(s->err_done){ s->st=3; s->so_error=s->err_done; } else s->st=2; } }

// ================================================================ mappings
static std::set<u64> pages; int mapping_count(){ return pages.size(); }

// ================================================================ processes
std::function<bool(const std::string&,PopenScript&)> on_popen; std::vector<std::string> popen_cmds;
bool std_faults=false; std::vector<ChildEv> children; std::function<u64()> child_duration; std::function<void(int)> on_fork; std::function<void()> on_wait_eintr; static std::map<int,void(*)(int)> handlers; bool deliver_signal(int s){ auto i=handlers.find(s); if(i==handlers.end()||i->second==SIG_DFL) return false; trace("  signal %d delivered",s); i->second(s); return true; } static int mypid=4242;
bool is_child(){ return pure_child; }
int running_children(){ int n=0; for(auto&c:children) if(!c.reaped) n++; return n; }
int children_unreaped(){ return running_children(); }
std::map<std::string,std::string> env; std::vector<SysLogRec> syslog_recs; static std::string outtext;
std::string stdout_text(){ return outtext; }
static jmp_buf exit_jb; static bool exit_armed; static int exit_code;
bool run_catch_exit(std::function<void()> f,int*code){ exit_armed=true; if(setjmp(exit_jb)==0){ f(); exit_armed=false; return false; } exit_armed=false; in_lib=false; *code=exit_code; return true; }
[[noreturn]] static void do_exit(int c){ if(pure_child){ trace("  child exit(%d)",c); fflush(nullptr); _exit(c); } trace("  exit(%d)",c); if(exit_armed){ exit_code=c; longjmp(exit_jb,1);} fail(active_prop,"crash:exit","the library called exit(%d)",c); }

} // namespace sim
using namespace sim;
extern "C" {
FILE *sim_stdout,*sim_stderr,*sim_stdin;

// ---------------------------------------------------------------- plain descriptors
int sim_open(const char*p,int fl,...){ int m=0; if(fl&O_CREAT){ va_list ap; va_start(ap,fl); m=va_arg(ap,int); va_end(ap);} return do_open(p,fl,m); }
int sim_open64(const char*p,int fl,...){ return do_open(p,fl,0644); }
int sim_openat(int d,const char*p,int fl,...){ (void)d; return do_open(p,fl,0644); }
int sim_creat(const char*p,mode_t m){ return do_open(p,O_CREAT|O_WRONLY|O_TRUNC,m); }
ssize_t sim_read(int fd,void*b,size_t n){ return do_read(fd,b,n); }
ssize_t sim_pread(int fd,void*b,size_t n,off_t o){ return do_read(fd,b,n,o); }
ssize_t sim_recv(int fd,void*b,size_t n,int){ return do_read(fd,b,n); }
ssize_t sim_write(int fd,const void*b,size_t n){ return do_write(fd,b,n); }
ssize_t sim_pwrite(int fd,const void*b,size_t n,off_t o){ return do_write(fd,b,n,o); }
ssize_t sim_send(int fd,const void*b,size_t n,int){ return do_write(fd,b,n); }
static ssize_t iov_all(int fd,const struct iovec*v,int c,bool wr){ ssize_t t=0; bool any=false; for(int i=0;i<c;i++){ if(!v[i].iov_len) continue; any=true; ssize_t r=wr?do_write(fd,v[i].iov_base,v[i].iov_len):do_read(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:r; t+=r; if((size_t)r<v[i].iov_len) return t; auto o=getfd(fd); if(!o||o->t!=T_FILE) break; } (void)any; return t; }
ssize_t sim_readv(int fd,const struct iovec*v,int c){ return iov_all(fd,v,c,false); }
ssize_t sim_writev(int fd,const struct iovec*v,int c){ return iov_all(fd,v,c,true); }
static ssize_t fd_to_fd(int in,off_t*io,int out,off_t*oo,size_t n){ std::vector<char> b(std::min(n,(size_t)65536)); if(b.empty()) return 0; auto i=getfd(in); if(!i) return -1; i64 save=i->off; ssize_t r=do_read(in,b.data(),b.size(),io?*io:-1); if(r<=0) return r; ssize_t w=do_write(out,b.data(),r,oo?*oo:-1); if(io) { if(w>0) *io+=w; } else if((i=getfd(in))&&i->t==T_FILE) i->off=save+(w>0?w:0); if(oo&&w>0) *oo+=w; return w; }
ssize_t sim_copy_file_range(int in,off_t*io,int out,off_t*oo,size_t n,unsigned){ return fd_to_fd(in,io,out,oo,n); }
ssize_t sim_sendfile(int out,int in,off_t*io,size_t n){ return fd_to_fd(in,io,out,nullptr,n); }
ssize_t sim_recvfrom(int fd,void*b,size_t n,int,struct sockaddr*,socklen_t*l){ if(l)*l=0; return do_read(fd,b,n); }
ssize_t sim_sendto(int fd,const void*b,size_t n,int,const struct sockaddr*,socklen_t){ return do_write(fd,b,n); }
ssize_t sim_recvmsg(int fd,struct msghdr*m,int){ return sim_readv(fd,m->msg_iov,(int)m->msg_iovlen); }
ssize_t sim_sendmsg(int fd,const struct msghdr*m,int){ return sim_writev(fd,m->msg_iov,(int)m->msg_iovlen); }
int sim_vdprintf(int fd,const char*f,va_list ap){ va_list a2; va_copy(a2,ap); int n=vsnprintf(nullptr,0,f,a2); va_end(a2); if(n<0) return -1; std::string s((size_t)n+1,0); vsnprintf(&s[0],(size_t)n+1,f,ap); size_t o=0; while(o<(size_t)n){ ssize_t w=do_write(fd,s.data()+o,(size_t)n-o); if(w<0) return -1; o+=(size_t)w; } return n; }
int sim_dprintf(int fd,const char*f,...){ va_list ap; va_start(ap,f); int r=sim_vdprintf(fd,f,ap); va_end(ap); return r; }
int sim_close(int fd){ return do_close(fd,"close"); }
off_t sim_lseek(int fd,off_t off,int wh){ step("lseek"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_FILE){ errno=ESPIPE; return -1;} i64 b=wh==SEEK_SET?0:wh==SEEK_CUR?(i64)o->off:o->ino?(i64)o->ino->data.size():4096; if(b+off<0){ errno=EINVAL; return -1;} o->off=b+off; return o->off; }
int sim_dup(int fd){ step("dup"); auto o=getfd(fd); if(!o) return -1; if(fault(F_DUP)){ errno=EMFILE; return -1;} int r=newfd(o); trace("  dup(%d)=%d",fd,r); return r; }
int sim_dup2(int fd,int to){ step("dup2"); auto o=getfd(fd); if(!o) return -1; if(fault(F_DUP)){ errno=EMFILE; return -1;} if(fd==to) return to; drop(to); fds[to]=o; return to; }
int sim_fsync(int fd){ step("fsync"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_FILE){ errno=EINVAL; return -1;} if(fault(F_CLOSE_ERR)){ errno=EIO; return -1;} return 0; }
int sim_fdatasync(int fd){ return sim_fsync(fd); }
int sim_ftruncate(int fd,off_t n){ step("ftruncate"); auto o=getfd(fd); if(!o) return -1; if(fault(F_FTRUNCATE)){ errno=EFBIG; return -1;} if(o->t!=T_FILE||!o->ino||n<0){ errno=EINVAL; return -1;} if(n>(1l<<30)){ errno=EFBIG; return -1; } if(o->realfd>=0){ if(ftruncate(o->realfd,n)) return -1; } o->ino->data.resize(n<(1<<20)?n:(1<<20)); trace("  ftruncate(%d,%ld)",fd,(long)n); sys_done("ftruncate"); return 0; }
int sim_truncate(const char*p,off_t n){ step("truncate"); auto i=fs_get(p); if(!i){ errno=ENOENT; return -1;} if(fault(F_FTRUNCATE)){ errno=EIO; return -1;} i->data.resize(n); sys_done("truncate"); return 0; }
static int fill_stat(InodeP i,bool dir,struct stat*st){ memset(st,0,sizeof *st); if(dir){ st->st_mode=S_IFDIR|0755; st->st_nlink=2; st->st_size=4096; return 0;} st->st_mode=i->mode; st->st_size=i->data.size(); st->st_nlink=i->nlink; st->st_ino=i->id; st->st_dev=1+i->dev; st->st_mtime=i->mtime; st->st_atime=i->mtime; st->st_ctime=i->mtime; st->st_blksize=4096; st->st_blocks=(i->data.size()+511)/512; return 0; }
int sim_stat(const char*p,struct stat*st){ step("stat"); if(fault(F_STAT)){ errno=chance(1,2)?EIO:EACCES; trace("  stat fails"); return -1;} std::string n=norm(p); if(dirs.count(n)) return fill_stat(nullptr,true,st); auto i=names.find(n); if(i==names.end()){ errno=ENOENT; return -1;} return fill_stat(i->second,false,st); }
int sim_lstat(const char*p,struct stat*st){ return sim_stat(p,st); }
int sim_fstat(int fd,struct stat*st){ step("fstat"); auto o=getfd(fd); if(!o) return -1; if(fault(F_FSTAT)){ errno=EIO; trace("  fstat fails"); return -1;} if(o->t==T_FILE) return fill_stat(o->ino,o->isdir,st); memset(st,0,sizeof *st); st->st_mode=o->t==T_SOCK?S_IFSOCK|0600:S_IFIFO|0600; return 0; }
int sim_access(const char*p,int){ step("access"); if(fault(F_STAT)){ errno=EACCES; return -1;} if(fs_exists(p)) return 0; errno=ENOENT; return -1; }
int sim_unlink(const char*p){ step("unlink"); std::string n=norm(p); if(fault(F_UNLINK)){ errno=EACCES; trace("  unlink(%s)=EACCES",n.c_str()); return -1;} if(dirs.count(n)){ errno=EISDIR; return -1;} auto i=names.find(n); if(i==names.end()){ errno=ENOENT; trace("  unlink(%s)=ENOENT",n.c_str()); return -1;} i->second->nlink--; names.erase(i); trace("  unlink(%s)=0",n.c_str()); sys_done("unlink"); return 0; }
int sim_remove(const char*p){ return sim_unlink(p); }
int sim_unlinkat(int,const char*p,int){ return sim_unlink(p); }
int sim_rmdir(const char*){ errno=ENOTEMPTY; return -1; }
int sim_link(const char*a,const char*b){ step("link"); std::string x=norm(a),y=norm(b); if(fault(F_LINK)){ static const int es[]={EACCES,EMLINK,EPERM,EXDEV}; errno=es[draw(4)]; trace("  link=errno %d",errno); return -1;} auto i=names.find(x); if(i==names.end()){ errno=dirs.count(x)?EPERM:ENOENT; return -1;} if(names.count(y)||dirs.count(y)){ errno=EEXIST; trace("  link=EEXIST"); return -1;} if(!dirs.count(parent(y))){ errno=ENOENT; return -1;} if(devof(x)!=devof(y)){ errno=EXDEV; trace("  link=EXDEV"); return -1;} i->second->nlink++; InodeP ip=i->second; names[y]=ip; trace("  link(%s,%s)=0",x.c_str(),y.c_str()); sys_done("link"); return 0; }
int sim_rename(const char*a,const char*b){ step("rename"); std::string x=norm(a),y=norm(b); if(fault(F_RENAME)){ errno=chance(1,2)?EACCES:EXDEV; return -1;} auto i=names.find(x); if(i==names.end()){ errno=ENOENT; return -1;} if(dirs.count(y)){ errno=EISDIR; return -1;} if(!dirs.count(parent(y))){ errno=ENOENT; return -1;} if(devof(x)!=devof(y)){ errno=EXDEV; return -1;} if(x==y) return 0; InodeP ip=i->second; auto j=names.find(y); if(j!=names.end()){ if(j->second==ip) return 0; j->second->nlink--; } names[y]=ip; names.erase(x); trace("  rename(%s,%s)",x.c_str(),y.c_str()); sys_done("rename"); return 0; }
int sim_linkat(int,const char*a,int,const char*b,int){ return sim_link(a,b); }
int sim_fstatat(int fd,const char*p,struct stat*st,int){ if(!*p) return sim_fstat(fd,st); return sim_stat(p,st); }
int sim_faccessat(int,const char*p,int m,int){ return sim_access(p,m); }
int sim_renameat(int,const char*a,int,const char*b){ return sim_rename(a,b); }
int sim_mkstemp(char*t){ step("mkstemp"); size_t n=strlen(t); if(n<6||strcmp(t+n-6,"XXXXXX")){ errno=EINVAL; return -1;} if(fault(F_MKSTEMP)){ errno=EACCES; return -1;} static int k; do { char b[8]; snprintf(b,8,"%06d",k++); memcpy(t+n-6,b,6);} while(fs_exists(t)); NoFault nf; return do_open(t,O_RDWR|O_CREAT|O_EXCL,0600); }
int sim_mkostemp(char*t,int){ return sim_mkstemp(t); }
mode_t sim_umask(mode_t){ return 022; }
int sim_chmod(const char*,mode_t){ return 0; }
int sim_fchmod(int,mode_t){ return 0; }
int sim_fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long arg=va_arg(ap,long); va_end(ap); step("fcntl"); auto o=getfd(fd); if(!o) return -1; if(fault(F_FCNTL)){ errno=EINVAL; trace("  fcntl(%d,%d) fails",fd,cmd); return -1;}
  switch(cmd){ case F_GETFL: return (o->t==T_SOCK?(O_RDWR|o->sk->status|(o->sk->nonblock?O_NONBLOCK:0)):o->flags); case F_SETFL: if(o->t==T_SOCK){ o->sk->nonblock=(arg&O_NONBLOCK)!=0; o->sk->status=arg&(O_APPEND|O_ASYNC|O_NOATIME); } else o->flags=(o->flags&~O_NONBLOCK)|(arg&(O_NONBLOCK|O_APPEND)); trace("  fcntl(%d,SETFL,%s)",fd,arg&O_NONBLOCK?"nonblock":"block"); return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: { if(fault(F_DUP)){ errno=EMFILE; return -1;} return newfd(o,(int)arg<3?3:(int)arg);} case F_GETFD: return o->t==T_SOCK?o->sk->fdflags:0; case F_SETFD: if(o->t==T_SOCK) o->sk->fdflags=arg&FD_CLOEXEC; return 0; default: return 0; } }
int sim_ioctl(int fd,unsigned long req,...){ va_list ap; va_start(ap,req); void*arg=va_arg(ap,void*); va_end(ap); auto o=getfd(fd); if(!o) return -1; if(fault(F_FCNTL)){ errno=EINVAL; return -1;} if(req==0x5421 /*FIONBIO*/ && o->t==T_SOCK) o->sk->nonblock=*(int*)arg!=0; return 0; }
int sim_dup3(int fd,int to,int){ if(fd==to){ errno=EINVAL; return -1; } return sim_dup2(fd,to); }
off_t sim_lseek64(int fd,off_t off,int wh){ return sim_lseek(fd,off,wh); }
int sim_stat64(const char*p,struct stat64*st){ return sim_stat(p,(struct stat*)st); } int sim_lstat64(const char*p,struct stat64*st){ return sim_stat(p,(struct stat*)st); } int sim_fstat64(int fd,struct stat64*st){ return sim_fstat(fd,(struct stat*)st); }
int sim_renameat2(int,const char*a,int,const char*b,unsigned fl){ if(fl){ errno=EINVAL; return -1; } return sim_rename(a,b); }
int sim_pipe(int p[2]){ (void)p; errno=EMFILE; return -1; }
int sim_isatty(int){ errno=ENOTTY; return 0; }

// ---------------------------------------------------------------- mmap
void *sim_mmap(void*a,size_t n,int prot,int fl,int fd,off_t off){ step("mmap"); if(fault(F_MMAP)){ errno=ENOMEM; trace("  mmap fails"); return MAP_FAILED;} int rfd=-1; if(fd>=0&&!(fl&MAP_ANONYMOUS)){ auto o=getfd(fd); if(!o) return MAP_FAILED; if(o->t!=T_FILE||!o->ino){ errno=ENODEV; return MAP_FAILED;} if(o->realfd<0){ o->realfd=memfd_create("sim",MFD_CLOEXEC); if(o->realfd<0||ftruncate(o->realfd,o->ino->data.size())) abort(); if(o->ino->data.size()) if(pwrite(o->realfd,o->ino->data.data(),o->ino->data.size(),0)<0) abort(); } rfd=o->realfd; }
  if((fl&MAP_FIXED)){ u64 b=(u64)a; for(u64 x=b;x<b+n;x+=4096) if(!pages.count(x)) ub("crash:mmap-fixed","MAP_FIXED mapping over memory the library does not own (%zu bytes)",n); }
  void*r=mmap(a,n,prot,fl,rfd,off); if(r==MAP_FAILED){ trace("  mmap=%d",errno); return r;} for(u64 x=(u64)r;x<(u64)r+n;x+=4096) pages.insert(x); trace("  mmap(%zu)",n); return r; }
int sim_munmap(void*a,size_t n){ step("munmap"); if(a==MAP_FAILED||a==nullptr){ errno=EINVAL; soft_fail("C20","bad-munmap","the library unmapped an address it never mapped"); return -1;} u64 b=(u64)a; if(b&4095){ errno=EINVAL; return -1;} bool all=true; for(u64 x=b;x<b+n;x+=4096) if(!pages.count(x)) all=false; if(!all){ soft_fail("C20","bad-munmap","the library unmapped %zu bytes of which some are not mapped by it",n); errno=EINVAL; return -1; } for(u64 x=b;x<b+n;x+=4096) pages.erase(x); trace("  munmap(%zu)",n); return munmap(a,n); }
int sim_mprotect(void*a,size_t n,int p){ return mprotect(a,n,p); }
int sim_memfd_create(const char*,unsigned){ step("memfd"); if(fault(F_MKSTEMP)){ errno=ENOMEM; return -1;} auto o=std::make_shared<OF>(); o->t=T_FILE; o->flags=O_RDWR; o->ino=std::make_shared<Inode>(); o->path="(memfd)"; return newfd(o); }
int sim_shm_open(const char*n,int f,mode_t m){ return do_open(n,f,m); }
int sim_shm_unlink(const char*n){ return sim_unlink(n); }

// ---------------------------------------------------------------- stdio over the simulated descriptors (real glibc buffering)
struct Ck { int fd; bool eof; };
static ssize_t ck_read(void*c,char*b,size_t n){ ssize_t r=do_read(((Ck*)c)->fd,b,n); if(r<0){ S->hard++; } return r; }
static ssize_t ck_write(void*c,const char*b,size_t n){ size_t d=0; while(d<n){ ssize_t r=do_write(((Ck*)c)->fd,b+d,n-d); if(r<0){ S->hard++; return d; } d+=r; } return d; }
static int ck_seek(void*c,off64_t*off,int wh){ off_t r=sim_lseek(((Ck*)c)->fd,*off,wh); if(r<0) return -1; *off=r; return 0; }
static int ck_close(void*c){ Ck*k=(Ck*)c; int r=do_close(k->fd,"fclose"); if(r<0) S->hard++; delete k; return r; }
static FILE*mkstream(int fd,const char*mode){ Ck*k=new Ck{fd,false}; cookie_io_functions_t f={ck_read,ck_write,ck_seek,ck_close}; std::string m; for(const char*p=mode;*p;p++) if(strchr("rwa+b",*p)) m+=*p; FILE*fp=fopencookie(k,m.c_str(),f); if(!fp) abort(); static const int sz[]={0,0,0,16,64,256,1,4096}; int z=sz[draw(8)]; if(z){ char*b=(char*)malloc(z+16); setvbuf(fp,b,_IOFBF,z); sbuf[fp]=b; } streams[fp]=fd; return fp; }
static int modeflags(const char*m){ int f; bool plus=strchr(m,'+'); switch(*m){ case 'r': f=plus?O_RDWR:O_RDONLY; break; case 'w': f=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; break; case 'a': f=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; break; default: return -1;} if(strchr(m,'x')) f|=O_EXCL; return f; }
FILE *sim_fopen(const char*p,const char*m){ int f=modeflags(m); if(f<0){ errno=EINVAL; return nullptr;} int fd=do_open(p,f,0666); if(fd<0) return nullptr; return mkstream(fd,m); }
FILE *sim_fopen64(const char*p,const char*m){ return sim_fopen(p,m); }
FILE *sim_fdopen(int fd,const char*m){ step("fdopen"); auto o=getfd(fd); if(!o) return nullptr; if(fault(F_FDOPEN)){ errno=ENOMEM; trace("  fdopen fails"); return nullptr;} if(modeflags(m)<0){ errno=EINVAL; return nullptr;} return mkstream(fd,m); }
int sim_fclose(FILE*fp){ if(fp==sim_stdout||fp==sim_stderr||fp==sim_stdin){ soft_fail("C20","fclose-std","the library closed a standard stream"); return 0; } auto i=streams.find(fp); if(i==streams.end()){ if(!fp) ub("crash:fclose-null","fclose(NULL)"); ub("crash:double-fclose","fclose on a stream that is not open (already closed)"); } if(popens.count(fp)) ub("crash:fclose-popen","fclose on a popen stream (child never waited for)"); streams.erase(i); int r=fclose(fp); int e=errno; auto b=sbuf.find(fp); if(b!=sbuf.end()){ free(b->second); sbuf.erase(b);} errno=e; return r; }
int sim_fileno(FILE*fp){ auto i=streams.find(fp); if(i!=streams.end()) return i->second; if(fp==sim_stdout) return 1; if(fp==sim_stderr) return 2; if(fp==sim_stdin) return 0; errno=EBADF; return -1; }
FILE *sim_tmpfile(void){ char t[]="/tmp/tfXXXXXX"; int fd=sim_mkstemp(t); if(fd<0) return nullptr; NoFault nf; sim_unlink(t); return mkstream(fd,"w+"); }
FILE *sim_freopen(const char*p,const char*m,FILE*fp){ sim_fclose(fp); return sim_fopen(p,m); }
static ssize_t out_write(void*,const char*b,size_t n){ if(std_faults&&in_lib&&fault(F_WRITE_ERR)){ trace("  write to a standard stream=EIO"); errno=EIO; return 0; } if(outtext.size()<(1u<<20)) outtext.append(b,n); return n; }
int sim_vprintf(const char*f,va_list ap){ return vfprintf(sim_stdout,f,ap); }
int sim_printf(const char*f,...){ va_list ap; va_start(ap,f); int r=vfprintf(sim_stdout,f,ap); va_end(ap); return r; }
int sim_puts(const char*s){ return fprintf(sim_stdout,"%s\n",s); }
int sim_putchar(int c){ return fputc(c,sim_stdout); }
void sim_perror(const char*s){ fprintf(sim_stderr,"%s\n",s); }
ssize_t sim_getdelim(char**l,size_t*n,int d,FILE*fp){ size_t len=0; int c; if(!*l||!*n){ char*p=(char*)raw_alloc(120); sim::xfree(*l); *l=p; *n=120; } while((c=getc(fp))!=EOF){ if(len+2>*n){ extern void*libc_realloc(void*,size_t); char*p=(char*)libc_realloc(*l,*n*2); if(!p){ fp->_flags|=0x20; /* glibc marks the stream as failed */ return -1; } *l=p; *n*=2; } (*l)[len++]=c; if(c==d) break; } if(!len) return -1; (*l)[len]=0; return len; }
ssize_t sim___getdelim(char**l,size_t*n,int d,FILE*fp){ return sim_getdelim(l,n,d,fp); }
ssize_t sim_getline(char**l,size_t*n,FILE*fp){ return sim_getdelim(l,n,'\n',fp); }
FILE *sim_popen(const char*cmd,const char*m){ step("popen"); if(*m!='r'){ errno=EINVAL; return nullptr;} popen_cmds.push_back(cmd); if(fault(F_POPEN)){ errno=EAGAIN; return nullptr;} PopenScript ps; ps.status=127<<8; ps.end_errno=0; if(on_popen) on_popen(cmd,ps); trace("  popen(%s)",cmd); int fd=fd_stream_in(ps.out,ps.end_errno,true); FILE*fp=mkstream(fd,"r"); popens.insert(fp); pstatus[fp]=ps.status; return fp; }
int sim_pclose(FILE*fp){ step("pclose"); if(!popens.count(fp)){ ub("crash:pclose","pclose on a stream that is not an open popen stream"); } popens.erase(fp); int st=pstatus[fp]; pstatus.erase(fp); { NoFault nf; sim_fclose(fp);} if(fault(F_PCLOSE)){ errno=ECHILD; return -1;} trace("  pclose=%d",st); return st; }
int sim_system(const char*){ errno=EPERM; return -1; }

// ---------------------------------------------------------------- sockets
int sim_socket(int d,int t,int p){ step("socket"); if(fault(F_SOCKET)){ static const int es[]={EMFILE,EAFNOSUPPORT,ENOBUFS}; errno=es[draw(3)]; ev("socket",-1,std::to_string(d)+"/"+std::to_string(t&0xff)+"/"+std::to_string(p),-1); return -1;} int fd=fd_socket(d,t&0xff,p,(t&SOCK_NONBLOCK)!=0); ev("socket",fd,std::to_string(d)+"/"+std::to_string(t&0xff)+"/"+std::to_string(p),fd); return fd; }
int sim_setsockopt(int fd,int l,int n,const void*v,socklen_t len){ step("setsockopt"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_SOCK){ errno=ENOTSOCK; return -1;} std::string a=std::to_string(l)+"/"+std::to_string(n); if(l==IPPROTO_SCTP&&o->sk->proto!=IPPROTO_SCTP){ trace("  setsockopt: an SCTP option on another protocol"); errno=ENOPROTOOPT; ev("setsockopt",fd,a,-1); return -1;} if(l==SOL_SOCKET&&len<sizeof(int)){ errno=EINVAL; ev("setsockopt",fd,a,-1); return -1;} if(fault(F_SETSOCKOPT)){ errno=ENOPROTOOPT; ev("setsockopt",fd,a,-1); return -1;} o->sk->opts[{l,n}]=std::string((const char*)v,len); ev("setsockopt",fd,a,0); return 0; }
int sim_getsockopt(int fd,int l,int n,void*v,socklen_t*len){ step("getsockopt"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_SOCK){ errno=ENOTSOCK; return -1;} if(fault(F_GETSOCKOPT)){ errno=ENOBUFS; trace("  getsockopt fails"); return -1;} Sock*s=o->sk.get(); settle(s); int val=0; if(l==SOL_SOCKET&&n==SO_ERROR){ val=s->so_error; s->so_error=0; } else if(l==SOL_SOCKET&&n==SO_TYPE) val=s->type; else { auto i=s->opts.find({l,n}); if(i!=s->opts.end()){ size_t k=i->second.size()<*len?i->second.size():*len; memcpy(v,i->second.data(),k); *len=k; return 0; } } size_t k=*len<sizeof val?*len:sizeof val; memcpy(v,&val,k); *len=k; trace("  getsockopt(%d,%d,%d)=%d",fd,l,n,val); return 0; }
int sim_bind(int fd,const struct sockaddr*a,socklen_t al){ step("bind"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_SOCK){ errno=ENOTSOCK; return -1;} std::string s=addr_str(a,al); auto be=binderr.find(s); if(be!=binderr.end()){ errno=be->second; count_fault(F_BIND); ev("bind",fd,s,-1); return -1;} if(fault(F_BIND)){ static const int es[]={EADDRINUSE,EACCES,EADDRNOTAVAIL}; errno=es[draw(3)]; ev("bind",fd,s,-1); return -1;} o->sk->bound=true; o->sk->baddr=s; ev("bind",fd,s,0); return 0; }
int sim_listen(int fd,int bl){ step("listen"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_SOCK){ errno=ENOTSOCK; return -1;} if(o->sk->type!=SOCK_STREAM&&o->sk->type!=SOCK_SEQPACKET){ errno=EOPNOTSUPP; ev("listen",fd,"",-1); return -1;} if(fault(F_LISTEN)){ errno=EADDRINUSE; ev("listen",fd,"",-1); return -1;} o->sk->listening=true; o->sk->backlog=bl; ev("listen",fd,std::to_string(bl),0); return 0; }
int sim_connect(int fd,const struct sockaddr*a,socklen_t al){
  step("connect"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_SOCK){ errno=ENOTSOCK; return -1;} Sock*s=o->sk.get(); std::string as=addr_str(a,al);
  settle(s);
  if(s->st==2){ if(s->type==SOCK_DGRAM){ s->caddr=as; return 0; } errno=EISCONN; ev("connect",fd,as,-1); return -1; }
  if(s->st==3){ int e=s->so_error; s->so_error=0; s->st=0; if(e){ errno=e; ev("connect",fd,as,-1); return -1;} }
  if(s->st==1){ if(s->nonblock){ errno=EALREADY; ev("connect",fd,as,-1); return -1;} }
  else {
    if(fault(F_CONNECT_ERR)){ static const int es[]={ENETUNREACH,EADDRNOTAVAIL,ECONNREFUSED}; errno=es[draw(3)]; ev("connect",fd,as,-1); return -1;}
    Peer p{O_OK,0}; auto it=peers.find(as); if(it!=peers.end()) p=it->second; if(s->type==SOCK_DGRAM){ p.delay_us=0; if(p.outcome!=O_UNREACH) p.outcome=O_OK; }
    s->caddr=as; int err=p.outcome==O_OK?0:p.outcome==O_REFUSED?ECONNREFUSED:p.outcome==O_UNREACH?ENETUNREACH:p.outcome==O_RESET?ECONNRESET:ETIMEDOUT;
    if(p.outcome==O_BLACKHOLE) p.delay_us=127000000;
    if(err&&s->type==SOCK_DGRAM) count_fault(F_CONNECT_ERR); 
    if(p.delay_us==0){ if(err){ if(s->type!=SOCK_DGRAM) count_fault(F_CONNECT_ERR); errno=err; ev("connect",fd,as,-1); return -1;} s->st=2; ev("connect",fd,as,0); return 0; }
    s->st=1; s->t_done=clock_us+p.delay_us; s->err_done=err;
    if(s->nonblock){ errno=s->domain==AF_UNIX?EAGAIN:EINPROGRESS; if(s->domain==AF_UNIX) errno=EINPROGRESS; ev("connect",fd,as,-1); return -1; }
  }
  // blocking wait
  if(fault(F_CONNECT_EINTR)){ u64 d=s->t_done>clock_us?s->t_done-clock_us:0; if(d) { u64 w=d*(1+draw(16))/17; if(w>=d) w=d-1; clock_us+=w; errno=EINTR; ev("connect",fd,as,-1); return -1; } }
  if(clock_us<s->t_done) clock_us=s->t_done;
  settle(s); if(s->st==3){ errno=s->so_error; s->so_error=0; s->st=0; S->hard++; ev("connect",fd,as,-1); return -1;}
  ev("connect",fd,as,0); return 0;
}
int sim_accept(int fd,struct sockaddr*a,socklen_t*al){ step("accept"); auto o=getfd(fd); if(!o) return -1; if(o->t!=T_SOCK||!o->sk->listening){ errno=EINVAL; return -1;} Sock*s=o->sk.get();
  u64 at=s->next_arrival<s->arrivals.size()?s->arrivals[s->next_arrival].at:~0ull;
  if(at>clock_us && s->nonblock){ errno=EAGAIN; trace("  accept=EAGAIN"); return -1; }
  if(fault(F_ACCEPT_EINTR)){ if(at!=~0ull&&at>clock_us) clock_us+=(at-clock_us)*draw(16)/16; errno=EINTR; trace("  accept=EINTR"); return -1; }
  if(at==~0ull){ errno=EINVAL; trace("  accept=EINVAL (shut down)"); count_fault(F_ACCEPT_ERR); return -1; }
  if(at>clock_us) clock_us=at;
  if(fault(F_ACCEPT_ERR)){ static const int es[]={EMFILE,ENFILE,ENOBUFS,ENOMEM}; errno=es[draw(4)]; trace("  accept=errno %d",errno); return -1; }
  Arrival&r=s->arrivals[s->next_arrival++]; if(r.err){ errno=r.err; count_fault(F_ACCEPT_ERR); trace("  accept=errno %d",r.err); return -1; }
  int n=fd_socket(s->domain,s->type,s->proto,false); Sock*c=fd_sock(n); c->st=2; c->conn_id=r.id; if(a&&al&&*al>=sizeof(sockaddr_in)&&s->domain==AF_INET){ sockaddr_in si; memset(&si,0,sizeof si); si.sin_family=AF_INET; si.sin_port=htons(10000+r.id); memcpy(a,&si,sizeof si); *al=sizeof si; } trace("  accept=%d (conn %d)",n,r.id); return n; }
int sim_accept4(int fd,struct sockaddr*a,socklen_t*al,int){ return sim_accept(fd,a,al); }
int sim_shutdown(int,int){ return 0; }
int sim_getsockname(int fd,struct sockaddr*a,socklen_t*al){ (void)a;(void)al; auto o=getfd(fd); if(!o) return -1; errno=ENOBUFS; return -1; }
int sim_getpeername(int fd,struct sockaddr*a,socklen_t*al){ (void)a;(void)al; auto o=getfd(fd); if(!o) return -1; settle(o->sk.get()); if(o->sk->st==2) return 0; errno=ENOTCONN; return -1; }
// wait until one of the sockets is ready; returns time of readiness
static u64 ready_at(int fd){ auto o=fds[fd]; if(o->t!=T_SOCK) return clock_us; Sock*s=o->sk.get(); settle(s); if(s->listening) return s->next_arrival<s->arrivals.size()?std::max(clock_us,s->arrivals[s->next_arrival].at):~0ull; if(s->st==1) return s->t_done; return clock_us; }
static int wait_ready(std::vector<int>&v,u64 deadline,Kind ke,Kind kerr,bool&timed){ u64 t=~0ull; for(int f:v) t=std::min(t,ready_at(f)); timed=false; u64 w=std::min(t,deadline);
  if(fault(kerr)){ errno=ENOMEM; return -1; }
  if(w>clock_us && fault(ke)){ if(w==~0ull) w=clock_us+1000000; u64 d=w-clock_us; u64 x=d*draw(17)/17; clock_us+=x; errno=EINTR; return -1; }
  if(w==~0ull) fail(active_prop,"deadlock","the library waits forever for a descriptor that can never become ready");
  if(w>clock_us) clock_us=w; if(t>clock_us) { timed=true; return 0; } return 1; }
int sim_select(int nfds,fd_set*r,fd_set*w,fd_set*e,struct timeval*tv){ step("select"); if(tv&&(tv->tv_sec<0||tv->tv_usec<0)){ errno=EINVAL; trace("  select=EINVAL"); return -1;} std::vector<int> v; for(int i=0;i<nfds;i++){ bool in=(r&&FD_ISSET(i,r))||(w&&FD_ISSET(i,w))||(e&&FD_ISSET(i,e)); if(in){ if(!fds.count(i)){ errno=EBADF; return -1;} if((r&&FD_ISSET(i,r))||(w&&FD_ISSET(i,w))) v.push_back(i);} }
  u64 start=clock_us; u64 dl=tv?clock_us+(u64)tv->tv_sec*1000000+tv->tv_usec:~0ull; u64 asked=tv?dl-start:0; bool timed; int rc=wait_ready(v,dl,F_SELECT_EINTR,F_SELECT_ERR,timed); 
  if(tv){ u64 left=dl>clock_us?dl-clock_us:0; tv->tv_sec=left/1000000; tv->tv_usec=left%1000000; }
  if(rc<0){ int er=errno; trace("  select(timeout %lldus)=-1 errno %d after %lluus",tv?(long long)asked:-1ll,er,(unsigned long long)(clock_us-start)); errno=er; return -1; }
  int n=0; for(int i=0;i<nfds;i++){ bool rd=false; if(fds.count(i)) rd=!timed&&ready_at(i)<=clock_us; Sock*s=fds.count(i)?fds[i]->sk.get():nullptr; if(r&&FD_ISSET(i,r)){ bool rr=rd&&(!s||s->listening||s->st==3); if(rr)n++; else FD_CLR(i,r);} if(w&&FD_ISSET(i,w)){ bool ww=rd&&(!s||!s->listening); if(ww)n++; else FD_CLR(i,w);} if(e&&FD_ISSET(i,e)) FD_CLR(i,e); }
  trace("  select(timeout %lldus)=%d after %lluus",tv?(long long)asked:-1ll,n,(unsigned long long)(clock_us-start)); return n; }
int sim_poll(struct pollfd*p,nfds_t n,int ms){ step("poll"); std::vector<int> v; for(nfds_t i=0;i<n;i++) if(p[i].fd>=0&&fds.count(p[i].fd)) v.push_back(p[i].fd); bool timed; int rc=wait_ready(v,ms<0?~0ull:clock_us+(u64)ms*1000,F_SELECT_EINTR,F_SELECT_ERR,timed); trace("  poll(%d)=%d",ms,rc); if(rc<0) return -1; int k=0; for(nfds_t i=0;i<n;i++){ p[i].revents=0; if(p[i].fd>=0&&fds.count(p[i].fd)&&!timed&&ready_at(p[i].fd)<=clock_us){ Sock*s=fds[p[i].fd]->sk.get(); p[i].revents=p[i].events&(s&&s->listening?POLLIN:(POLLOUT|(s&&s->st!=3?0:POLLIN))); if(s&&s->st==3) p[i].revents|=POLLERR|POLLHUP; if(p[i].revents) k++; } } return k; }
int sim_ppoll(struct pollfd*p,nfds_t n,const struct timespec*ts,const sigset_t*){ return sim_poll(p,n,ts?(int)(ts->tv_sec*1000+(ts->tv_nsec+999999)/1000000):-1); }
int sim_pselect(int nfds,fd_set*r,fd_set*w,fd_set*e,const struct timespec*ts,const sigset_t*){ struct timeval tv; if(ts){ tv.tv_sec=ts->tv_sec; tv.tv_usec=ts->tv_nsec/1000; } return sim_select(nfds,r,w,e,ts?&tv:nullptr); }
int sim_getaddrinfo(const char*h,const char*sv,const struct addrinfo*hi,struct addrinfo**res){ step("getaddrinfo"); if(fault(F_RESOLVE)){ int k=draw(3); trace("  getaddrinfo fails"); if(k==2){ errno=ENOMEM; return EAI_SYSTEM;} return k?EAI_NONAME:EAI_AGAIN; } if(!h&&!sv) return EAI_NONAME;
  int port=0; if(sv&&*sv){ char*e; port=strtol(sv,&e,10); if(*e){ if(!strcmp(sv,"http")) port=80; else { trace("  getaddrinfo(%s)=SERVICE",sv); return EAI_SERVICE; } } }
  std::vector<std::string> a; int fam=hi->ai_family; char t[64]; unsigned char tmp[16];
  if(!h) a.push_back(fam==AF_INET6?((hi->ai_flags&AI_PASSIVE)?"::":"::1"):((hi->ai_flags&AI_PASSIVE)?"0.0.0.0":"127.0.0.1"));
  else if(inet_pton(fam,h,tmp)==1){ inet_ntop(fam,tmp,t,64); a.push_back(t);} else { auto i=hosts.find(h); if(i!=hosts.end()) a=fam==AF_INET6?i->second.second:i->second.first; }
  if(a.empty()){ trace("  getaddrinfo(%s)=NONAME",h); return EAI_NONAME; }
  struct addrinfo*head=nullptr,**tail=&head; for(auto&x:a){ struct addrinfo*ai=(struct addrinfo*)raw_alloc(sizeof(struct addrinfo)+sizeof(struct sockaddr_storage)+8); memset(ai,0,sizeof*ai+sizeof(sockaddr_storage)); ai->ai_family=fam; ai->ai_socktype=hi->ai_socktype; ai->ai_protocol=hi->ai_protocol; ai->ai_addr=(struct sockaddr*)(ai+1); if(fam==AF_INET){ sockaddr_in*s=(sockaddr_in*)ai->ai_addr; s->sin_family=AF_INET; s->sin_port=htons(port); inet_pton(AF_INET,x.c_str(),&s->sin_addr); ai->ai_addrlen=sizeof*s; } else { sockaddr_in6*s=(sockaddr_in6*)ai->ai_addr; s->sin6_family=AF_INET6; s->sin6_port=htons(port); inet_pton(AF_INET6,x.c_str(),&s->sin6_addr); ai->ai_addrlen=sizeof*s; } if(head==nullptr&&(hi->ai_flags&AI_CANONNAME)&&h){ ai->ai_canonname=(char*)raw_alloc(strlen(h)+1); strcpy(ai->ai_canonname,h);} *tail=ai; tail=&ai->ai_next; }
  trace("  getaddrinfo(%s,%s)=%zu address(es)",h?h:"*",sv?sv:"*",a.size()); *res=head; return 0; }
void sim_freeaddrinfo(struct addrinfo*a){ while(a){ auto*n=a->ai_next; if(a->ai_canonname) xfree(a->ai_canonname); xfree(a); a=n; } }

// ---------------------------------------------------------------- time
time_t sim_time(time_t*t){ time_t v=clock_us/1000000; if(t)*t=v; return v; }
int sim_gettimeofday(struct timeval*tv,void*){ step("gettimeofday"); if(fault(F_CLOCK_ERR)){ errno=EFAULT; return -1;} tv->tv_sec=clock_us/1000000; tv->tv_usec=clock_us%1000000; return 0; }
int sim_clock_gettime(clockid_t,struct timespec*ts){ step("clock_gettime"); if(fault(F_CLOCK_ERR)){ errno=EINVAL; return -1;} ts->tv_sec=clock_us/1000000; ts->tv_nsec=(clock_us%1000000)*1000; return 0; }
clock_t sim_clock(void){ return clock_us; }
struct tm *sim_localtime(const time_t*t){ return gmtime(t); }
struct tm *sim_localtime_r(const time_t*t,struct tm*r){ return gmtime_r(t,r); }
static bool nap(u64 us){ if(us && fault(F_SLEEP_EINTR)){ u64 d=us*draw(64)/64; clock_us+=d; return false;} clock_us+=us; return true; }
unsigned sim_sleep(unsigned s){ step("sleep"); u64 end=clock_us+(u64)s*1000000; if(nap((u64)s*1000000)){ trace("  sleep(%u)=0",s); return 0;} u64 left=(end-clock_us)/1000000; trace("  sleep(%u)=%llu EINTR",s,(unsigned long long)left); errno=EINTR; return left; }
int sim_usleep(useconds_t u){ step("usleep"); if(nap(u)) return 0; errno=EINTR; return -1; }
int sim_nanosleep(const struct timespec*rq,struct timespec*rm){ step("nanosleep"); if(rq->tv_nsec<0||rq->tv_nsec>999999999||rq->tv_sec<0){ errno=EINVAL; return -1;} u64 us=(u64)rq->tv_sec*1000000+(rq->tv_nsec+999)/1000; u64 end=clock_us+us; bool ok=nap(us); trace("  nanosleep(%llu)=%d",(unsigned long long)us,ok?0:-1); if(ok) return 0; if(rm){ rm->tv_sec=(end-clock_us)/1000000; rm->tv_nsec=(end-clock_us)%1000000*1000;} errno=EINTR; return -1; }
int sim_clock_nanosleep(clockid_t c,int fl,const struct timespec*rq,struct timespec*rm){ (void)c; if(fl){ u64 t=(u64)rq->tv_sec*1000000+rq->tv_nsec/1000; if(t<=clock_us) return 0; if(nap(t-clock_us)) return 0; return EINTR; } int r=sim_nanosleep(rq,rm); return r?errno:0; }

// ---------------------------------------------------------------- processes
pid_t sim_getpid(void){ return mypid; }
pid_t sim_getppid(void){ return 1; }
pid_t sim_fork(void){ step("fork"); if(fault(F_FORK)){ errno=EAGAIN; trace("  fork=EAGAIN"); return -1;} int pid=100+children.size(); trace("  fork=%d",pid); fflush(nullptr); pid_t r=fork(); if(r<0){ fprintf(stderr,"simulator: real fork failed\n"); abort(); }
  if(r==0){ pure_child=true; mypid=pid; for(int s:{SIGSEGV,SIGABRT,SIGBUS,SIGFPE,SIGILL,SIGTERM,SIGINT}){ struct { void*h; unsigned long fl; void*r; unsigned long m; } ka={0,0,0,0}; syscall(SYS_rt_sigaction,s,&ka,nullptr,8); } return 0; }
  int st=0; while(waitpid(r,&st,0)<0&&errno==EINTR){} if(S->status!=ST_RUNNING) _exit(0); 
  ChildEv c{pid,clock_us,0,st,(int)children.size(),false,false}; c.end=clock_us+1+(child_duration?child_duration():1000); children.push_back(c); if(on_fork) on_fork(pid); return pid; }
pid_t sim_vfork(void){ return sim_fork(); }
static pid_t do_wait(pid_t want,int*st,int opt,struct rusage*ru){ step("wait"); int best=-1; bool any=false; for(size_t i=0;i<children.size();i++) if(!children[i].reaped&&(want<=0||children[i].pid==want)){ any=true; if(best<0||children[i].end<children[best].end) best=i; } if(!any){ errno=ECHILD; trace("  wait=ECHILD (no children)"); return -1;}
  if(fault(F_WAIT_ECHILD)){ bool all=draw(2); trace("  wait: %s reaped by somebody else",all?"all children":"one child"); for(size_t i=0;i<children.size();i++) if(!children[i].reaped&&(all||(int)i==best)){ children[i].reaped=children[i].lost=true; if(children[i].end>clock_us) clock_us=children[i].end; }
    best=-1; for(size_t i=0;i<children.size();i++) if(!children[i].reaped&&(want<=0||children[i].pid==want)&&(best<0||children[i].end<children[best].end)) best=i; if(best<0){ errno=ECHILD; trace("  wait=ECHILD"); return -1; } }
  ChildEv&c=children[best]; if((opt&WNOHANG)&&c.end>clock_us){ return 0; }
  if(c.end>clock_us&&fault(F_WAIT_EINTR)){ clock_us+=(c.end-clock_us)*draw(16)/17; trace("  wait=EINTR"); if(on_wait_eintr) on_wait_eintr(); errno=EINTR; return -1; }
  if(c.end>clock_us) clock_us=c.end; c.reaped=true; if(st)*st=c.status; if(ru){ memset(ru,0,sizeof*ru); ru->ru_utime.tv_usec=(c.end-c.start)%1000000; ru->ru_maxrss=1; } trace("  wait=%d status %x",c.pid,c.status); return c.pid; }
pid_t sim_wait3(int*st,int opt,struct rusage*ru){ return do_wait(-1,st,opt,ru); }
pid_t sim_wait4(pid_t p,int*st,int opt,struct rusage*ru){ return do_wait(p,st,opt,ru); }
pid_t sim_waitpid(pid_t p,int*st,int opt){ return do_wait(p,st,opt,nullptr); }
int sim_waitid(int ty,id_t id,siginfo_t*si,int opt){ int st=0; int o=(opt&WNOHANG)?WNOHANG:0; pid_t r=do_wait(ty==1?(pid_t)id:-1,&st,o,nullptr); if(r<0) return -1; if(si){ memset(si,0,sizeof*si); if(r>0){ si->si_signo=SIGCHLD; si->si_pid=r; if(WIFEXITED(st)){ si->si_code=CLD_EXITED; si->si_status=WEXITSTATUS(st);} else { si->si_code=CLD_KILLED; si->si_status=WTERMSIG(st);} } } return 0; }
pid_t sim_wait(int*st){ return do_wait(-1,st,0,nullptr); }
int sim_kill(pid_t p,int sig){ step("kill"); trace("  kill(%d,%d)",p,sig); if(pure_child) return 0; for(auto&c:children) if(!c.reaped&&(c.pid==p||p==0||p==-1)){ if(sig==SIGKILL||sig==SIGTERM||sig==SIGINT){ if(c.end>clock_us){ c.end=clock_us; c.status=sig; } } } return 0; }
int sim_raise(int s){ trace("  raise(%d)",s); if(pure_child){ signal(s,SIG_DFL); return raise(s);} fail(active_prop,"crash:raise","the library raised signal %d",s); }
void sim_exit(int c){ do_exit(c); }
void sim__exit(int c){ do_exit(c); }
void sim__Exit(int c){ do_exit(c); }
void sim_abort(void){ if(pure_child){ signal(SIGABRT,SIG_DFL); raise(SIGABRT);} fail(active_prop,"crash:abort","the library called abort()"); }
int sim_sigaction(int s,const struct sigaction*a,struct sigaction*o){ step("sigaction"); if(fault(F_SIGACTION)){ errno=EINVAL; return -1;} if(o){ memset(o,0,sizeof*o); o->sa_handler=handlers.count(s)?handlers[s]:SIG_DFL; } if(a) handlers[s]=a->sa_handler; return 0; }
typedef void(*shf)(int); shf sim_signal(int s,shf f){ shf o=handlers.count(s)?handlers[s]:SIG_DFL; handlers[s]=f; return o; }
int sim_getrusage(int,struct rusage*r){ memset(r,0,sizeof*r); return 0; }
unsigned sim_alarm(unsigned){ return 0; }
int sim_uname(struct utsname*u){ step("uname"); if(fault(F_UNAME)){ errno=EFAULT; return -1;} memset(u,0,sizeof*u); strcpy(u->sysname,"SimOS"); strcpy(u->nodename,"simhost"); strcpy(u->release,"1.0"); strcpy(u->version,"v1"); strcpy(u->machine,"sim"); return 0; }
long sim_sysconf(int n){ return sysconf(n); }
int sim_gethostname(char*b,size_t n){ snprintf(b,n,"simhost"); return 0; }

// ---------------------------------------------------------------- environment, random, log
char *sim_getenv(const char*n){ auto i=env.find(n); return i==env.end()?nullptr:(char*)i->second.c_str(); }
char *sim_secure_getenv(const char*n){ return sim_getenv(n); }
int sim_setenv(const char*n,const char*v,int ow){ step("setenv"); if(!n||!*n||strchr(n,'=')){ errno=EINVAL; return -1;} if(fault(F_SETENV)){ errno=ENOMEM; trace("  setenv fails"); return -1;} if(!ow&&env.count(n)) return 0; env[n]=v; trace("  setenv(%s)",n); return 0; }
int sim_putenv(char*s){ char*e=strchr(s,'='); if(!e){ env.erase(s); return 0;} if(fault(F_SETENV)){ errno=ENOMEM; return -1;} env[std::string(s,e-s)]=e+1; return 0; }
int sim_unsetenv(const char*n){ env.erase(n); return 0; }
int sim_rand(void){ return (int)(draw(1u<<20)<<11); }
long sim_random(void){ return sim_rand(); }
ssize_t sim_getrandom(void*b,size_t n,unsigned){ step("getrandom"); for(size_t i=0;i<n;i++) ((unsigned char*)b)[i]=(unsigned char)draw(256); return (ssize_t)n; }
int sim_rand_r(unsigned*){ return sim_rand(); }
void sim_srand(unsigned){} void sim_srandom(unsigned){}
void sim_vsyslog(int pri,const char*f,va_list ap){ step("syslog"); static char b[65536]; int en=errno; int n=vsnprintf(b,sizeof b,f,ap); (void)n; errno=en; syslog_recs.push_back({pri,b}); if(fault(F_ERRNO_CLOBBER)){ static const int es[]={ENOTCONN,EPIPE,EINTR,EINVAL}; errno=es[draw(4)]; } }
void sim_syslog(int pri,const char*f,...){ va_list ap; va_start(ap,f); sim_vsyslog(pri,f,ap); va_end(ap); }
void sim_openlog(const char*,int,int){} void sim_closelog(void){} int sim_setlogmask(int){ return 0xff; }
}
namespace sim {
FILE*harness_fopen(const std::string&p,const char*m){ NoFault nf; return sim_fopen(p.c_str(),m); }
static size_t base_fds; static u64 base_mem; static size_t base_streams,base_pages;
void baseline(){ base_fds=fds.size(); base_mem=mem_mark(); base_streams=streams.size(); base_pages=pages.size(); }
static std::string with20(const char*also){ return *also?std::string("C20,")+also:std::string("C20"); }
void check_balance(const char*what,const char*also_fd,const char*also_mem){
  std::string F=with20(also_fd),M=with20(also_mem); const char*pf=F.c_str(),*pm=M.c_str();
  if(!active(pf)&&!active(pm)) return;
  if(active(pm)){ std::string d; size_t n=leaked_desc(d,base_mem);
    if(n) fail(pm,"leak-memory","after %s, %zu block(s) obtained by the library are still allocated: %s",what,n,d.c_str()); }
  if(active(pf)){
    if(streams.size()>base_streams) fail(pf,"leak-stream","after %s, %zu stream(s) opened by the library are still open",what,streams.size()-base_streams);
    if(fds.size()>base_fds) fail(pf,"leak-fd","after %s, %zu descriptor(s) opened by the library are still open: %s",what,fds.size()-base_fds,fd_describe().c_str());
    if(fds.size()<base_fds) fail(pf,"closed-callers-fd","after %s, a descriptor of the caller has been closed: %s",what,fd_describe().c_str());
    if(pages.size()>base_pages) fail(pf,"leak-mapping","after %s, %zu page(s) mapped by the library are still mapped",what,pages.size()-base_pages);
    if(running_children()) fail(pf,"leak-child","after %s, %d child process(es) were never waited for",what,running_children()); }
  probe("balance-checked");
}
void kernel_reset(){
  for(const char*d:{"/","/a","/b","/tmp","/etc","/var","/a/sub","/a/d","/b/d","/var/tmp","/dev/shm"}) dirs.insert(d);
  cookie_io_functions_t f={nullptr,out_write,nullptr,nullptr}; sim_stdout=fopencookie(nullptr,"w",f); sim_stderr=fopencookie(nullptr,"w",f); cookie_io_functions_t g={nullptr,nullptr,nullptr,nullptr}; sim_stdin=fopencookie(nullptr,"r",g); setvbuf(sim_stdout,nullptr,_IONBF,0); setvbuf(sim_stderr,nullptr,_IONBF,0);
}
}

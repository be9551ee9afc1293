// Deterministic simulator for libu: public interface for scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>

namespace sim {

typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef unsigned char u8;

// ---------------------------------------------------------------- choices
u32 draw(u32 n);                         // uniform in [0,n); 0 is the simplest/benign alternative
bool chance(u32 num, u32 den);           // true with probability num/den; simplest = false
i64 range(i64 lo, i64 hi);               // lo is the simplest
u32 logu(u32 maxbits);                   // log-uniform size: 0 .. 2^maxbits-1
template<class T> const T& pick(const std::vector<T>& v) { return v[draw((u32)v.size())]; }
struct Span { Span(); ~Span(); };        // marks a deletable piece of the choice sequence
bool more(u32 avg);                      // continue an operation loop? (geometric, mean avg; simplest = stop)
std::string rbytes(size_t n, int style); // style 0: 'a'.. readable; 1: any byte

// ---------------------------------------------------------------- faults
enum Kind {
  F_MALLOC, F_OPEN, F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_READ_EAGAIN,
  F_WRITE_ERR, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EINTR, F_CLOSE_ERR, F_STAT, F_FSTAT, F_LINK,
  F_UNLINK, F_RENAME, F_DUP, F_FDOPEN, F_MMAP, F_MKSTEMP, F_FTRUNCATE, F_SYSCONF,
  F_SOCKET, F_BIND, F_LISTEN, F_SETSOCKOPT, F_GETSOCKOPT, F_FCNTL, F_CONNECT_EINTR, F_CONNECT_ERR, F_SELECT_EINTR, F_SELECT_ERR,
  F_ACCEPT_EINTR, F_ACCEPT_ERR, F_RESOLVE, F_FORK, F_WAIT_EINTR, F_WAIT_ECHILD, F_SLEEP_EINTR, F_CLOCK_ERR,
  F_POPEN, F_PCLOSE, F_SETENV, F_SIGACTION, F_UNAME, F_ERRNO_CLOBBER, F_VSNPRINTF,
  F_CALLBACK,  // failure reported by a scripted application callback / driver
  F_CRASH_POINT, // crash points examined (invariant evaluated on the state a killed process leaves behind)
  F_NKINDS
};
extern const char *kind_name[F_NKINDS];
bool fault(Kind k);                      // opportunity: does a fault of this kind happen here?
void count_fault(Kind k);                // scripted fault delivered outside fault()
bool transparent(Kind k);                // must not make an operation fail by itself
u64 hard_faults();                       // faults fired so far that entitle an operation to fail
u64 fired(Kind k);
void faults_allow(std::initializer_list<Kind> ks); // restrict this run to these kinds (call before any opportunity)
void faults_heal();                      // no more faults from here on (liveness phase)
bool faults_enabled_this_run();

// Scope of a library call: faults fire only inside one.
struct Lib { bool prev; Lib(); ~Lib(); };
extern bool in_lib;
struct NoFault { bool prev; NoFault(); ~NoFault(); };
#define LIBCALL(expr) ([&]{ ::sim::Lib _lib; return (expr); }())
#define LIBVOID(expr) do { ::sim::Lib _lib; expr; } while (0)

// ---------------------------------------------------------------- verdicts / tracing
void trace(const char *fmt, ...) __attribute__((format(printf,1,2)));
[[noreturn]] void fail(const char *prop, const char *rule, const char *fmt, ...) __attribute__((format(printf,3,4)));
void soft_fail(const char *prop, const char *rule, const char *fmt, ...) __attribute__((format(printf,3,4))); // ignored unless prop is active
bool active(const char *prop);           // is this the property under check?
[[noreturn]] void end_run();             // finish quietly
void large_run();                        // this run works on large inputs: 20 times the ordinary step limits
void probe(const char *name);            // "rare condition was hit" counter
#define CHECKP(prop, cond, rule, ...) do { if (!(cond)) ::sim::fail(prop, rule, __VA_ARGS__); } while (0)
std::string q(const std::string&, size_t max = 60); // printable

// ---------------------------------------------------------------- memory
size_t live_blocks();
u64 mem_mark();                          // sequence number: blocks allocated later are >= mark
size_t live_since(u64 mark);
bool is_live(const void *p);
size_t live_size(const void *p);         // usable size of a library block
void xfree(void *p);                     // release memory handed out by the library

void hooks_install(bool on); u64 hook_count(); // an application-supplied allocator, built on the simulated one
void *hook_malloc(size_t); void *hook_calloc(size_t,size_t); void *hook_realloc(void*,size_t); void hook_free(void*);

// ---------------------------------------------------------------- time
u64 now_us(); void advance(u64 us);

// ---------------------------------------------------------------- file system
struct Inode { std::string data; int nlink=1; int dev=0; u32 mode=0100644; i64 mtime=0; u64 id=0; bool dir=false; };
typedef std::shared_ptr<Inode> InodeP;
void fs_put(const std::string &path, const std::string &data);
bool fs_exists(const std::string &path);
InodeP fs_get(const std::string &path);
std::string fs_data(const std::string &path);
void fs_rm(const std::string &path);
void fs_mkdir(const std::string &path);
void fs_capacity(int dev, u64 bytes);
void fs_touch(const std::string &path, i64 mtime);
std::vector<std::string> fs_list();
extern std::function<void(const char *what)> on_syscall;   // crash-point hook (after every simulated system call)

// ---------------------------------------------------------------- descriptors
int fd_stream_in(const std::string &data, int end_errno = 0, bool slow = true);  // scripted incoming bytes; end_errno!=0: error instead of EOF
int fd_stream_out(u64 limit = ~0ull, int end_errno = 0);  // accepts up to limit bytes, then end_errno
std::string fd_taken(int fd);            // bytes written into a stream_out / consumed count for stream_in
u64 fd_consumed(int fd);
int fd_open_file(const std::string &path, int flags);
bool fd_is_open(int fd);
int fd_count();                          // open descriptors
std::string fd_describe();
void fd_close(int fd);                   // harness-side close (no faults)
i64 fd_lseek(int fd, i64 off);
int stream_count();                      // open FILE streams of the library
int mapping_count();
FILE *harness_fopen(const std::string &path, const char *mode);

// ---------------------------------------------------------------- sockets
enum Outcome { O_OK, O_REFUSED, O_UNREACH, O_BLACKHOLE, O_RESET };
struct Peer { Outcome outcome; u64 delay_us; };  // delay 0: completes inside connect()
struct Sock {
  int domain=0,type=0,proto=0; bool bound=false, listening=false, nonblock=false; int backlog=0, status=0 /* other status flags: O_ASYNC, O_APPEND ... */, fdflags=0;
  std::string baddr; std::string caddr; std::map<std::pair<int,int>,std::string> opts;
  int st=0; /*0 idle 1 connecting 2 connected 3 failed*/ u64 t_done=0; int err_done=0; int so_error=0; int conn_id=0;
  std::vector<struct Arrival> arrivals; size_t next_arrival=0;
};
struct Arrival { u64 at; int err; int id; };
void net_peer(const std::string &addr, Peer p);  // addr as printed by addr_str
void net_bind_error(const std::string &addr, int err);
std::string addr_str(const void *sa, unsigned len);
Sock *fd_sock(int fd);
int fd_socket(int domain, int type, int proto, bool nonblock);
void net_resolve(const std::string &host, std::vector<std::string> addrs4, std::vector<std::string> addrs6);
u64 net_last_reached(); 
struct SockEv { std::string what; int fd; std::string arg; int rc; int err; };
extern std::vector<SockEv> sockev;
u64 lib_calls_since(const char *name);

// ---------------------------------------------------------------- processes / env / misc
struct PopenScript { std::string out; int status; int end_errno; };
extern std::function<bool(const std::string&cmd, PopenScript&)> on_popen;
extern std::vector<std::string> popen_cmds;
int children_unreaped();
struct ChildEv { int pid; u64 start, end; int status; int started_seq; bool reaped; bool lost; /* reaped by somebody else */ };
extern std::vector<ChildEv> children;
bool is_child();
int running_children();
extern std::function<u64()> child_duration;
extern std::function<void(int pid)> on_fork;
extern std::function<void()> on_wait_eintr;
bool deliver_signal(int s);             // run the handler the library installed
extern std::map<std::string,std::string> env;
struct SysLogRec { int pri; std::string msg; };
extern std::vector<SysLogRec> syslog_recs;
std::string stdout_text();
extern bool std_faults;                  // standard streams can fail too
bool run_catch_exit(std::function<void()> f, int *code); // returns true if the library called exit()
void set_mkstemp_ok(bool);
extern int nice_rand_mode;

// ---------------------------------------------------------------- scenarios
struct Scenario { const char *name; std::vector<const char*> props; std::function<void()> fn; int weight; };
std::vector<Scenario> &scenarios();
struct Reg { Reg(const char *n, std::vector<const char*> p, std::function<void()> f, int w=1) { scenarios().push_back({n,p,f,w}); } };
// resource balance: no blocks / descriptors / streams / mappings beyond the baseline
void check_balance(const char *what,const char *also_fd="",const char *also_mem="");
void baseline();
} // namespace sim

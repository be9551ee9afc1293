p('C01','Exact-length descriptor I/O: every byte once, in order, or an honest failure',
 "A read or write of L bytes through the exact-length I/O calls (u_io, u_read, u_write, u_net_read/readn, u_net_write/writen) reports complete success only if exactly the L bytes at the front of the stream were transferred, each once and in order, however the operating system splits, shortens or interrupts the individual transfers. "
 "On end-of-file or error it stops, reports failure (u_read: the short count on EOF, -1 on error) together with the exact number of bytes really transferred and whether EOF was the reason, and it never touches memory outside the first L bytes of the caller's buffer. "
 "An interruption by a signal (EINTR) alone never makes the call fail, and every call ends as soon as L bytes, EOF or a real error is met.",
 ['inputs','schedules','fault_sequences'],
 "every length L, every way the OS may split a transfer (short counts), every placement of EINTR, EOF and hard errors",
 "The kernel decides the splits and the interruptions; no upstream test calls u_io, u_read or u_write at all.",
 [T+'misc.c','include/toolbox/net.h'],
 [('nleft/p','bytes still to move and position in the caller buffer',T+'misc.c:u_io')],
 [('restart loop of u_io',T+'misc.c:581'),('EOF vs error discrimination of u_read',T+'misc.c:635')],
 ['return values and value-result arguments','bytes on the peer side of the descriptor','caller buffer and the bytes around it'])

p('C02','Timed connect: true outcome, honoured deadline, blocking mode restored',
 "u_connect_ex (and u_connect) returns 0 only if the connection really is established and a negative value only if it is not or could not be determined; with a timeout it returns -2 if and only if the connection was still pending when the full timeout had elapsed (never before, and not unboundedly later; an attempt the system itself gave up as timed out may be reported either way), and signals interrupting the wait neither abort the attempt nor lengthen or shorten the deadline by more than the handling granularity. "
 "A connection that completes or is refused within the deadline is reported as such. "
 "On every exit the socket that was passed in is still open and in the blocking mode the caller gave it; u_net_set_nonblocking, u_net_unset_nonblocking and u_net_nagle_off succeed exactly when the socket then is in the mode named, and change nothing else.",
 ['schedules','fault_sequences','configurations'],
 "every peer behaviour (immediate, delayed, refused, black-holed), every timeout, every sequence of EINTRs and failing system calls in between",
 "Depends on peer timing and on signals arriving inside connect/select; no upstream test exercises the net module.",
 [T+'net.c'],
 [('timeout/tstart','remaining time and start of the attempt',T+'net.c:u_connect_ex'),('O_NONBLOCK on the socket','set for the duration of the wait',T+'net.c:u_net_set_nonblocking')],
 [('connect + select + SO_ERROR machine',T+'net.c:u_connect_ex'),('update_timeout',T+'net.c')],
 ['return value','virtual clock at return','O_NONBLOCK flag of the socket','state of the simulated connection'])

p('C03','Socket creation from an address: first usable candidate, all options, no leaks',
 "Creating a socket from a URI or address object (u_net_sd, u_net_sd_ex, u_net_sd_by_addr(_ex)) tries the resolved addresses in order and returns a descriptor for the first one that works - passive sockets bound (address reuse enabled unless disabled) and listening when connection-oriented, active ones connected unless told not to - and fails only if every candidate failed. "
 "The returned descriptor is open, of the family, type and protocol the URI scheme asks for, and is the only descriptor left open by the call; on failure none is left open. "
 "An address object can be reused for any number of further sockets, with the same guarantees each time.",
 ['inputs','fault_sequences','histories'],
 "every scheme/host/port/option combination, every candidate list, every subset of failing system calls, every reuse sequence",
 "Needs resolver answers with several addresses and failing socket/bind/listen/setsockopt/connect calls; no upstream test touches the net module.",
 [T+'net.c',T+'uri.c'],
 [('addr list / cur','candidates and the one in use',T+'net.c:u_net_addr_s')],
 [('candidate loop',T+'net.c:do_sock'),('active socket set-up',T+'net.c:do_csock'),('passive socket set-up',T+'net.c:do_ssock')],
 ['returned descriptor and its simulated kernel object','system-call history','descriptor table after the call'])

p('C04','Save honesty: success means the whole content is in the file',
 "When a call that saves data to a file (u_data_dump, u_buf_save, u_savepid) reports success, the named file holds exactly the data that was to be saved - the given bytes, the buffer's bytes, or the process id - even if the disk fills up, writes are short, or an error only surfaces when the file is closed. "
 "In all other cases the call reports failure; with no failing system call it succeeds, whatever the content (the empty content included) and whether or not the file existed before. "
 "The data and buffer being saved are unchanged by the call.",
 ['inputs','fault_sequences'],
 "every content and size, every prior state of the target, every position and kind of I/O failure (open, write, short write, ENOSPC, close)",
 "Delayed write errors and full disks cannot be produced by the upstream tests; none of them saves a file.",
 [T+'misc.c',T+'buf.c'],
 [],
 [('u_data_dump',T+'misc.c'),('u_buf_save',T+'buf.c'),('u_savepid',T+'misc.c')],
 ['return value','bytes of the simulated file after the call'])

p('C05','Load honesty: success means all of the file and nothing but the file',
 "When u_load_file or u_buf_load reports success, the caller holds exactly the bytes of the file - all of them, in order, with the right length - even if the file arrives in arbitrarily short reads, and (u_load_file) only if the size is within the given maximum. "
 "If the file cannot be opened or read completely, exceeds the limit, or memory runs out, the call reports failure and hands out nothing; without such a cause it succeeds, for an empty file too. "
 "A failed u_buf_load leaves the buffer either unchanged or empty and in any case usable.",
 ['inputs','fault_sequences'],
 "every file content and size (around the limit in particular), every short-read pattern and every failing system or allocation call",
 "No upstream test loads a file through these calls; read errors, short reads and allocation failures cannot be provoked by them.",
 [T+'misc.c',T+'buf.c'],
 [],
 [('u_load_file',T+'misc.c'),('u_buf_load',T+'buf.c')],
 ['return value, returned bytes and length'])

p('C06','Copy, move and remove never lose or corrupt file data',
 "When u_copy reports success the destination holds exactly the source's bytes and the source is intact; when u_move reports success the destination holds exactly what the source held and the source name is gone, on the same file system or across file systems; u_remove reports success exactly when the name is gone. "
 "If any of them fails - or the process is killed at any point in between - the source file's content is still complete under at least one of the two names, and u_copy never alters the source. "
 "They fail only when a system call failed or an argument is unusable.",
 ['inputs','crash_points','fault_sequences'],
 "every file content and size, same or different file system, every failing/short/interrupted system call, every crash point between system calls",
 "Read errors, full disks, errors at close and process death in the middle of a copy cannot be staged by the upstream tests (which do not cover the fs module).",
 [T+'fs.c'],
 [],
 [('u_copy',T+'fs.c'),('u_move: link, or copy then unlink on EXDEV',T+'fs.c')],
 ['return value','content under both names after return or after a crash at an arbitrary system call'])

p('C07','Configuration load is faithful to the text, whatever way it arrives',
 "Loading a configuration (u_config_load from a descriptor, u_config_load_from_file, u_config_load_from_drv, u_config_load_from) yields exactly the tree the text describes - every key, value and nested section, in order, includes expanded - regardless of how the bytes are chunked by the source, how long the lines are, whether the last line ends in a newline, and which source is used. "
 "If the text is malformed, a referenced file is missing, a file includes itself directly or indirectly, sections nest deeper than U_CONFIG_MAX_DEPTH, a read fails or memory runs out, the load reports failure; it never reports success for a tree that lacks or alters part of the text. A file may be included any number of times. "
 "The caller's descriptor is left open, and everything the load opened is closed.",
 ['inputs','fault_sequences','configurations'],
 "every configuration text, every chunking of the byte source, every failing open/read/close/allocation, every include structure",
 "No upstream test loads a configuration; short reads, read errors and allocation failures are never produced.",
 [T+'config.c',T+'config_fs.c'],
 [('config tree','children lists of key/value items',T+'config.c:u_config_s')],
 [('line reader cs_getline',T+'config.c'),('recursive parser u_config_do_load_drv',T+'config.c'),('file system driver',T+'config_fs.c')],
 ['resulting tree walked through the public accessors','return value','descriptor table'])

p('C08','Configuration tree behaves as an ordered multimap, before and after save/load',
 "Any history of configuration edits (add key, set or replace value, add, delete and sort children, lookups by key, subkey or index) is observed through the accessors exactly as on an ordered tree of key/value nodes. "
 "Serialising a tree the text format can express (leaves with one-line values, inner nodes without value) and loading it back gives the same tree. "
 "An operation that fails for lack of memory reports failure and leaves the tree as it was (no value lost, no node half-attached).",
 ['histories','fault_sequences'],
 "every sequence of operations and every placement of allocation failures within it",
 "No upstream test covers the config module; allocation failure inside an edit cannot be staged.",
 [T+'config.c'],
 [('children list, key, value','ordered tree',T+'config.c:u_config_s')],
 [('add/set/get/del/sort operations',T+'config.c'),('u_config_save_to_buf',T+'config.c')],
 ['accessor results after every step','serialised text'])

p('C09','Password database: answers follow the newest successfully loaded snapshot',
 "Authentication and record retrieval (u_pwd_init_file or custom backends, u_pwd_auth_user, u_pwd_retr) agree with the current content of the master database: a user is authenticated exactly when the database holds the user with a matching (hashed) password, in in-memory and in direct mode alike. "
 "After the master database changes (its modification stamp advances), the next query sees the new content; if the new content cannot be loaded (open, read or memory failure), queries either fail or keep being answered from the last complete snapshot - never from a truncated or mixed one - and the reload is retried until it succeeds. "
 "A failing lookup never reports a successful authentication.",
 ['histories','fault_sequences','schedules'],
 "every history of database updates and queries, every chunking and failure of the database reads and every allocation failure, at every point of a reload",
 "The upstream test only reads one constant file; updates between queries, failing reloads and allocation failures are never staged.",
 [T+'pwd.c'],
 [('db','in-memory snapshot',T+'pwd.c:u_pwd_s'),('last_mod','stamp of the snapshot',T+'pwd.c:u_pwd_s')],
 [('u_pwd_need_reload/u_pwd_db_load',T+'pwd.c'),('u_pwd_retr',T+'pwd.c')],
 ['u_pwd_auth_user and u_pwd_retr results against the simulated master file'])

p('C10','Environment load: all of the child output, or an error',
 "u_env_init returns success only if the sourcing child ran to a successful end and every prefixed variable it printed has been set, complete and unaltered, in the caller's environment; u_env_var then returns exactly these values. "
 "If the child cannot be started, its output cannot be read to the end, it ends unsuccessfully, or a variable cannot be set, the call reports failure. "
 "Variables without the prefix are not touched and no child or stream is left behind.",
 ['inputs','fault_sequences','schedules'],
 "every child output (long lines, missing final newline), every chunking of the pipe, every failing call and child exit status",
 "No upstream test covers the env module; it needs a child process whose output and status are controlled.",
 [T+'env.c'],
 [],
 [('popen/fgets/setenv loop',T+'env.c:u_env_init')],
 ['return value','simulated environment','open streams after the call'])

p('C11','Log calls deliver complete messages and leave the caller undisturbed',
 "Every log call delivers its message, complete and once, to the log hook if one is installed and else to syslog, with the right facility, priority and context; what does not fit the message buffer is either delivered truncated or dropped with an error return, never corrupting memory. "
 "errno is the same after the call as before, whatever the logging back end does. "
 "The lock and unlock callbacks installed around logging are called strictly in pairs on every path.",
 ['inputs','histories','fault_sequences'],
 "every message length and label, every hook/lock configuration, every back-end behaviour including one that alters errno",
 "No upstream test inspects the log; errno-clobbering back ends and boundary-length messages are not exercised.",
 [T+'log.c','include/toolbox/log.h','include/toolbox/logprv.h'],
 [('hook, lock, unlock callbacks','installed by the application',T+'log.c')],
 [('u_log_write_ex',T+'log.c'),('U_LOG_LOCK/UNLOCK bracket',T+'log.c')],
 ['records captured by the hook or simulated syslog','errno','lock call sequence'])

p('C12','Hash map is a map, in both table layouts, across growth and failure',
 "Any history of puts, overwrites, gets, deletes, clears, copies and iterations on a hash map gives the answers of a mathematical map (put without overwrite of an existing key is refused and changes nothing; count and iteration agree with the content), for chained and linear-probing layout, any initial size, automatic growth, pointer or owned data, custom hash and comparison functions. "
 "Objects owned by the map are released exactly once, when they leave it. "
 "An operation that fails for lack of memory reports failure and leaves every other entry findable.",
 ['histories','configurations','fault_sequences'],
 "every operation history, every option combination (layout, ownership, sizes, hash function), every placement of allocation failures",
 "The upstream tests insert and retrieve fixed sequences; deletes interleaved with growth, colliding keys and allocation failures are not covered.",
 [T+'hmap.c'],
 [('table, size, px','buckets, capacity, element count',T+'hmap.c:u_hmap_s')],
 [('chain and linear probing',T+'hmap.c:_get/_o_put'),('resize',T+'hmap.c:__resize'),('ownership',T+'hmap.c:__o_free')],
 ['get/put/del/copy/count/foreach results against a reference map','release callbacks'])

p('C13','Bounded hash map: size limit kept and the right victim discarded',
 "A hash map created with a discard policy and a maximum size never holds more than that many entries, and each put of a new key into a full map discards exactly the entries its policy names - the oldest inserted (FIFO), the least recently used (LRU), the least frequently used (LFU), or one chosen by the application's comparison (CUSTOM) - while all others stay retrievable. "
 "Explicit deletes, clears and lookups keep the policy's bookkeeping consistent, so a later discard never hits a missing, already released or wrongly ranked entry.",
 ['histories','configurations','fault_sequences'],
 "every interleaving of put, get, delete and clear under every policy, size limit and layout, with failing allocations",
 "Upstream tests run one fixed access pattern per policy and never delete from a bounded map.",
 [T+'hmap.c'],
 [('policy queue','entries in discard order',T+'hmap.c:u_hmap_q_s')],
 [('__queue_push, __queue_del_it, __pcy_setup',T+'hmap.c')],
 ['which keys are still retrievable after every step against a reference cache'])

p('C14','Ring buffer is a lossless bounded FIFO of bytes',
 "Whatever history of writes, reads, fast reads and clears is applied, the bytes read from a ring buffer are exactly the bytes accepted by its writes, in order, each once; every read and write transfers as many bytes as available data or free space allow and returns that number (a request larger than the whole buffer may be refused with nothing transferred), and the ready/available counters always add up to the capacity. "
 "This holds for every capacity, in memory-mapped and in plain mode, with or without contiguous-read support, at every wrap position. "
 "If the buffer's memory cannot be set up the constructor reports failure and leaves nothing behind.",
 ['histories','configurations','fault_sequences'],
 "every sequence of transfer sizes, every wrap-around position, each implementation variant, each failing system or allocation call during creation",
 "Upstream tests use a few fixed sizes; wrap positions, mixed fast/normal reads and failing mmap/mkstemp/ftruncate are not sampled.",
 [T+'rb.c'],
 [('wr, rd, ready, fullfill','offsets and fill level',T+'rb.c:u_rb_s')],
 [('create_mmap (double mapping) and create_malloc',T+'rb.c'),('read/write primitives per variant',T+'rb.c')],
 ['returned counts and bytes against a reference queue','mappings and descriptors after create/free'])

p('C15','Growing strings and buffers: contents are the concatenation of what was added',
 "After any history of set, append, formatted print, clear, shift, prefetch/reserve and detach operations, a string or a growable buffer holds exactly the bytes a sequence-of-bytes model holds, with the right length, and strings and loaded or printed buffers are zero-terminated, whatever the sizes added and the growth steps taken. "
 "Every operation ends; one that fails for lack of memory or for a formatting error reports failure and leaves the object usable with its previous content (operations that replace the content may leave it empty).",
 ['histories','inputs','fault_sequences'],
 "every operation history and size pattern, every placement of allocation failures",
 "Upstream tests append small constants; growth boundaries, long formatted output and allocation failures are not covered, the buf module not at all.",
 [T+'str.c',T+'buf.c'],
 [('data, len, size','content, used and allocated bytes',T+'str.c, '+T+'buf.c')],
 [('u_string_reserve and growth steps',T+'str.c'),('u_buf_reserve, u_buf_printf',T+'buf.c')],
 ['accessor results after every step against a byte-vector model'])

p('C16','Lists, arrays, priority queues and search trees match their models',
 "Any operation history on a list, dynamic array, bounded priority queue or binary search tree gives the answers of the obvious mathematical model: sequence order and counts for lists, last value set for arrays, the k best-priority elements in order for queues, sorted key/value map with correct rank and size for trees - however the randomised tree operations fall out. "
 "An operation that fails for lack of memory reports failure and leaves the content and counts as they were.",
 ['histories','fault_sequences','schedules'],
 "every operation history, every outcome of the internal random choices, every placement of allocation failures",
 "Upstream tests run fixed sequences with real rand(); failing allocations and unlucky random choices are not controlled.",
 [T+'list.c',T+'array.c',T+'pqueue.c',T+'bst.c'],
 [('item chain and count','list content',T+'list.c'),('base, nslot, resz','array storage',T+'array.c'),('heap and nitems','queue content',T+'pqueue.c'),('nodes and subtree sizes','tree content and ranks',T+'bst.c')],
 [('list operations',T+'list.c'),('array grow',T+'array.c'),('sift up/down',T+'pqueue.c'),('rotations, split/join',T+'bst.c')],
 ['accessor results after every step against reference models'])

p('C17','JSON objects: build, edit, encode, decode and index agree with one tree',
 "Any history of building and editing a JSON value (add, set, remove, copy of parsed input, index/unindex, iterate, frozen lookups) is observed through accessors, iterators, dotted-name lookups and encoding exactly as on a plain tree of values; decoding yields exactly the tree the JSON text denotes and an encoded value decodes to an equal one. "
 "Indexed lookup and direct lookup agree, for containers of any nesting. "
 "If memory runs out during an operation it reports failure and the value stays usable and consistent; it never reports success for an incomplete result.",
 ['histories','fault_sequences'],
 "every edit history on values of every shape, every placement of allocation failures in decode, index and edit",
 "Upstream tests parse fixed documents and never remove, re-index or fail an allocation in between.",
 [T+'json.c',T+'lexer.c'],
 [('children queue, map index, cached encode','object state',T+'json.c:u_json_s')],
 [('recursive-descent parser',T+'json.c'),('index by dotted name',T+'json.c:u_json_index'),('encoder',T+'json.c:u_json_encode')],
 ['accessor results, lookups, encodings against a reference tree'])

p('C18','Test runner verdicts are honest',
 "The unit-test runner reports a test case as passed only if it was really started and its function ran to a successful end; a case that failed, crashed, was killed, could not be started or whose result could not be collected is never reported as passed, and the runner's own result is success only if no case failed. "
 "The report written at the end names every registered suite and case exactly once with that verdict, and an incompletely written report, or a reporter that fails, makes the run an error. A case without a function succeeds, unless it has to be skipped. "
 "This holds for sequential and parallel execution alike, whatever order children end in.",
 ['schedules','fault_sequences','configurations'],
 "every completion order and exit status of the children, every failing fork/wait/alloc/report write, every suite and dependency structure, every parallelism",
 "The runner is what runs the upstream tests: it is never itself tested with crashing cases, failing forks or interrupted waits.",
 [T+'test.c'],
 [('status of cases and suites','verdicts',T+'test.c:u_test_obj_s'),('running children','pid to case map',T+'test.c')],
 [('spawn and reap',T+'test.c:u_test_case_exec/u_test_reap'),('status propagation',T+'test.c'),('reporters',T+'test.c')],
 ['simulated process table','report file','u_test_run result'])

p('C19','Test runner scheduling: dependencies first, bounded children, always ends',
 "The test runner never starts a case or suite before everything it depends on has ended, skips it if a dependency failed, and refuses exactly the plans whose dependencies are circular. "
 "In parallel mode the number of simultaneously running children never exceeds the configured maximum. "
 "Every run terminates with every startable case started exactly once, provided its children end.",
 ['schedules','configurations','fault_sequences'],
 "every dependency graph, every parallelism bound, every completion order of the children, interrupted waits and failing forks",
 "The upstream suite has one fixed plan run with -p 1; circular or repeated dependencies, failing dependencies and child limits are not exercised.",
 [T+'test.c'],
 [('rank','topological level of a case or suite',T+'test.c'),('nchildren, max_parallel','concurrency bound',T+'test.c')],
 [('dependency sorting',T+'test.c:u_test_sequencer'),('scheduler loop',T+'test.c:u_test_scheduler')],
 ['start and end events of simulated children','return value','step count'])

p('C20','No operation leaks or double-releases memory, descriptors, streams or mappings',
 "Whenever an operation of the library has ended and every object it handed out has been released through its release call, no memory, file descriptor, stream, mapping, temporary file or child process obtained by the library remains, whichever system call or allocation failed on the way. "
 "Nothing is released twice or used after release, and the caller's own descriptors are never closed.",
 ['histories','fault_sequences'],
 "every operation of every module, every single and multiple failure of the system calls and allocations under it",
 "Error paths run only when a system call or an allocation fails, which the upstream tests cannot arrange.",
 [T+'misc.c',T+'fs.c',T+'buf.c',T+'str.c',T+'config.c',T+'pwd.c',T+'env.c',T+'net.c',T+'rb.c',T+'hmap.c',T+'list.c',T+'array.c',T+'pqueue.c',T+'bst.c',T+'json.c',T+'lexer.c',T+'uri.c',T+'test.c',T+'memory.c'],
 [],
 [('err: cleanup paths of every module',T+'*.c')],
 ['allocation table, descriptor table, stream table and mapping table of the simulator after release'])

p('C21','Sleeping and accepting are transparent to signals',
 "u_sleep returns success only after at least the requested time has really passed, less at most the part of a second lost to rounding per interrupting signal, however many signals interrupt it, and it never sleeps unboundedly longer. "
 "u_accept returns a connection, or a real error, and never fails merely because a signal interrupted it or loses a connection that was handed to it.",
 ['schedules','fault_sequences'],
 "every sequence and timing of interrupting signals, every arrival time of connections",
 "Needs signals delivered at chosen instants of a sleep or accept; no upstream test does so.",
 [T+'misc.c',T+'net.c'],
 [],
 [('restart loop of u_sleep',T+'misc.c'),('restart loop of u_accept',T+'net.c')],
 ['virtual clock','accepted connection identity','return value'])

p('C22','A replaced allocator sees every allocation and release',
 "After the application has installed its own malloc, calloc, realloc and free through u_memory_set_*, every block any part of the library obtains, resizes or releases goes through exactly the installed function of that kind, with the requested size; the library never calls the C library's allocator behind it, never hands the installed free or realloc a pointer the installed functions did not return, and never passes NULL to the installed free. "
 "u_zalloc and u_calloc memory is zero, u_realloc keeps the old content (and the old block, when it fails), and u_strdup, u_strndup and u_memdup give exact copies. When the installed allocator refuses, the operation fails as it does for lack of memory.",
 ['histories','fault_sequences'],
 "every sequence of operations of any module with replacements installed, every allocation refused by them",
 "A direct call to the C library works with the default allocator, so no existing test can notice it; only running every module with replacements does.",
 [T+'memory.c',T+'misc.c'],
 [('u_memory_fns','the installed functions',T+'memory.c')],
 [('u_malloc/u_calloc/u_zalloc/u_realloc/u_free wrappers',T+'memory.c'),('u_strdup/u_strndup/u_memdup',T+'misc.c')],
 ['calls reaching the installed functions and the C library','block contents'])

p('C23','URI objects, lexers and token lists keep exactly what they were given',
 "A URI object is a record of its components: a successful setter changes that component and no other, an oversized value is refused; u_uri_knead always composes the current components (authority, else userinfo, else user and password, with brackets exactly around IPv6 or bracketed hosts), whatever was set, parsed or composed before; parsing a URI composed from valid components, with or without an authority, gives these components back, and any other text is either refused without a trace or gives components that are pieces of it and fit their cells. "
 "u_strtok returns exactly the non-empty pieces of its input, in order, for every number of pieces, leaving the input alone; a lexer's position, look-ahead and matches always agree with the text it was created on. When memory runs out these fail with an error, leave nothing behind, and never return a partial result as success.",
 ['histories','fault_sequences'],
 "every history of setters, parsing and composing on URI objects, every token count, every sequence of lexer steps, every failing allocation",
 "Upstream tests parse and compose a few fixed URIs, once per object, and never fail an allocation.",
 [T+'uri.c',T+'misc.c',T+'lexer.c'],
 [('u_uri_s','URI components and host flags',T+'uri.c'),('u_lexer_s','text, position and match offsets',T+'lexer.c')],
 [('u_uri_crumble/u_uri_knead',T+'uri.c'),('u_strtok',T+'misc.c'),('u_lexer_next_ex',T+'lexer.c')],
 ['components returned','composed text','tokens','lexer position'])

PURE="a pure function of its arguments: no schedule, clock, fault or interleaving for a simulator to decide"
p('C30','Base64 coding round-trips',
 "Decoding the base64 encoding of any byte string gives back that byte string, encodings follow RFC 4648, and neither direction writes beyond the stated output size.",
 ['inputs'],"every byte string and output size","Upstream tests use a handful of vectors.",
 [T+'b64.c'],[],[('u_b64_encode/u_b64_decode',T+'b64.c')],['output bytes'])
p('C31','Number parsing is exact or refused',
 "The string-to-number conversions (u_atoi, u_atol, u_atoll, u_atof and variants) return success exactly for strings that denote a representable number, and then yield that number.",
 ['inputs'],"every string","Upstream tests use a few literals.",
 [T+'misc.c'],[],[('u_ato* family',T+'misc.c')],['return value and result'])
p('C32','URI parsing and formatting follow RFC 3986 and round-trip',
 "Parsing a URI accepts exactly the syntax of RFC 3986, splits it into the right components, and re-assembling the components gives back an equivalent URI.",
 ['inputs'],"every string","Upstream tests use a fixed list of URIs.",
 [T+'uri.c'],[],[('u_uri_crumble/u_uri_knead',T+'uri.c')],['components'])
p('C33','JSON grammar conformance',
 "Decoding accepts exactly the texts of the JSON grammar (within the documented nesting and token limits) and rejects all others.",
 ['inputs'],"every text","Upstream tests use a fixed set of documents.",
 [T+'json.c',T+'lexer.c'],[],[('recursive-descent parser',T+'json.c')],['accept/reject'])
p('C34','Bounded string and address helpers never overflow',
 "The bounded copy, concatenation, formatting, trimming, tokenising and address-to-text helpers never write beyond the stated size, always terminate their output, and report truncation.",
 ['inputs'],"every string and size","Upstream tests use a few literals.",
 [T+'misc.c',T+'net.c'],[],[('u_strlcpy, u_strlcat, u_snprintf, u_path_snprintf, u_strtok, u_sa_ntop',T+'misc.c, '+T+'net.c')],['output bytes'])

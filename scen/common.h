#pragma once
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <u/libu.h>
using namespace sim;
extern "C" { ssize_t sim_read(int,void*,size_t); ssize_t sim_write(int,const void*,size_t); int sim_close(int); int sim_fclose(FILE*); }
static inline std::string S_(const char*p){ return p?std::string(p):std::string("(null)"); }

// sizes no machine can provide: around the points where "size + header", "size * element" or "2 * size" wrap around
static inline size_t hugesz(){ static const u32 d[]={1,2,4,8,16,32,64,24}; probe("impossible-size"); size_t b=SIZE_MAX/d[draw(8)]; switch(draw(3)){ case 0: return b-draw(4); case 1: return b-draw(300); default: return b-draw(70000); } }

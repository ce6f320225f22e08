// Executes logging programs under lpsched, with standard output in a file of each schedule's own, and adds the lines found in
// there to the end of the trace.  Usage: log_driver PROGRAMS OUT SEED SCHEDULES MODE
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <lamppost/log/Log.h>

#include "lpsched/lpsched.h"

extern "C" void* log_copy_make(const char* p, size_t n);
extern "C" void log_copy_write(void* l, int k, const char* p, size_t n, int level);

// Writing to a stream is an operation that other threads may come between.
static int live;
template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static void point() { if(live) lps_yield(); }
extern "C" {
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) { static auto r = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite"); size_t x = r(p, s, n, f); point(); return x; }
int putc(int c, FILE* f) { static auto r = real<int (*)(int, FILE*)>("putc"); int x = r(c, f); point(); return x; }
int fputc(int c, FILE* f) { static auto r = real<int (*)(int, FILE*)>("fputc"); int x = r(c, f); point(); return x; }
int putchar(int c) { static auto r = real<int (*)(int)>("putchar"); int x = r(c); point(); return x; }
int fputs(const char* s, FILE* f) { static auto r = real<int (*)(const char*, FILE*)>("fputs"); int x = r(s, f); point(); return x; }
int puts(const char* s) { static auto r = real<int (*)(const char*)>("puts"); int x = r(s); point(); return x; }
int fflush(FILE* f) { static auto r = real<int (*)(FILE*)>("fflush"); int x = r(f); point(); return x; }
ssize_t write(int fd, const void* p, size_t n) { static auto r = real<ssize_t (*)(int, const void*, size_t)>("write"); ssize_t x = r(fd, p, n); if(fd == 1) point(); return x; }
}

struct Op { char k; int logger, level; std::string text; };
struct Prog { std::string tag; std::vector<std::string> prefixes; std::vector<std::vector<Op>> threads; };
static const Prog* prog;
static std::vector<std::unique_ptr<lp::log::Log>> loggers;
static std::vector<void*> copies;

static std::string quoted(const std::string& s)
{
  std::string r = "\"";
  for(unsigned char c : s)
  {
    char b[8];
    if(c < 32 || c == '"' || c == '\\' || c > 126) { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
// One event may not be arbitrarily long.
static void exec(int t)
{
  for(const Op& o : prog->threads[(size_t)t])
  {
    lp::log::Log own(prog->prefixes[(size_t)o.logger]);
    lp::log::Log& l = o.k >= 'a' ? own : *loggers[(size_t)o.logger];
    lps_quiet_begin(); std::string pf = quoted(prog->prefixes[(size_t)o.logger]), tx = quoted(o.text); lps_quiet_end();
    lps_event("{\"t\":%d,\"e\":\"c\",\"pre\":%s,\"lv\":%d,\"tx\":%s}", lps_self(), pf.c_str(), o.level, tx.c_str());
    const char* x = "";
    try
    {
      if(o.k >= '1' && o.k <= '3') log_copy_write(copies[(size_t)o.logger], "iwe"[o.k - '1'], o.text.data(), o.text.size(), o.level);
      else switch(o.k | 32) { case 'i': if(o.level == 0) l.Info(o.text); else l.Info(o.text, o.level); break; case 'w': l.Warning(o.text, o.level); break; default: l.Error(o.text, o.level); }
    }
    catch(...) { x = "exception"; }
    lps_event("{\"t\":%d,\"e\":\"r\",\"x\":\"%s\"}", lps_self(), x);
  }
}
static void scenario(void*)
{
  int m = memfd_create("out", 0); if(m < 0) _exit(9);
  dup2(m, 1);
  loggers.clear(); copies.clear(); for(const std::string& p : prog->prefixes) { loggers.emplace_back(new lp::log::Log(p)); copies.push_back(log_copy_make(p.data(), p.size())); }
  live = 1;
  std::vector<std::thread> ts; for(size_t i = 1; i < prog->threads.size(); ++i) ts.emplace_back([i] { exec((int)i); });
  exec(0);
  for(std::thread& t : ts) t.join();
  live = 0;
  lps_quiet_begin();
  std::cout.flush(); fflush(stdout);
  std::string all; char b[4096]; ssize_t n; off_t off = 0;
  while((n = pread(1, b, sizeof b, off)) > 0) { all.append(b, (size_t)n); off += n; }
  lps_quiet_end();
  size_t i = 0;
  while(i < all.size())
  {
    size_t j = all.find('\n', i);
    if(j == std::string::npos) { lps_note("{\"e\":\"part\",\"s\":%s}", quoted(all.substr(i)).c_str()); break; }
    lps_note("{\"e\":\"line\",\"s\":%s}", quoted(all.substr(i, j - i)).c_str());
    i = j + 1;
  }
}
int main(int argc, char** argv)
{
  if(argc < 6) return 2;
  // prog TAG | pre P | thr KLV:TEXT ... with texts in hexadecimal; K: I, W, E (shared logger), i, w, e (logger of its own), 1, 2, 3 (logger of another library)
  std::ifstream in(argv[1]); std::vector<Prog> progs; std::string line;
  auto unhex = [](const std::string& s) { std::string r; for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return r; };
  while(std::getline(in, line))
  {
    std::stringstream ls(line); std::string w; ls >> w;
    if(w == "prog") { progs.emplace_back(); ls >> progs.back().tag; }
    else if(w == "pre") { w.clear(); ls >> w; progs.back().prefixes.push_back(unhex(w)); }
    else if(w == "thr")
    {
      progs.back().threads.emplace_back();
      while(ls >> w) { Op o; std::stringstream ws(w); std::string a, b, c, d; std::getline(ws, a, ':'); std::getline(ws, b, ':'); std::getline(ws, c, ':'); std::getline(ws, d, ':'); o.k = a[0]; o.logger = atoi(b.c_str()); o.level = atoi(c.c_str()); o.text = unhex(d); progs.back().threads.back().push_back(o); }
    }
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  lps_stats st = {};
  for(size_t i = 0; i < progs.size(); ++i)
  {
    prog = &progs[i];
    lps_explore(fd, prog->tag.c_str(), scenario, nullptr, (unsigned)atoi(argv[3]) + 7919u * (unsigned)i, atoi(argv[4]), atoi(argv[5]), &st);
  }
  close(fd);
  printf("{\"programs\":%zu,\"schedules\":%lld,\"distinct\":%lld,\"steps\":%lld,\"switches\":%lld,\"racy\":%lld}\n", progs.size(), st.schedules, st.distinct, st.steps, st.switches, st.races);
  return 0;
}

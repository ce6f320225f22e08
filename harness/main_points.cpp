// Linked into the real program: lets signals arrive at chosen points of its life (environment HOST_POINT = "KIND N SIGNAL"):
// "hook": right after the handler has been installed, "line": when the Nth line is printed (and the handler is installed),
// "exit": after main's objects have been destroyed.
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <iostream>
#include <streambuf>

static char kind[16]; static int at, sig, lines, fired;
static void fire()
{
  if(fired) return;
  struct sigaction a; sigaction(sig, nullptr, &a);
  if(a.sa_handler == SIG_DFL || (a.sa_handler == SIG_IGN && strcmp(kind, "exit"))) return;
  fired = 1;
  int fd = open(getenv("HOST_EVENTS"), O_WRONLY | O_APPEND | O_CLOEXEC);
  static const char e[] = "{\"e\":\"sig\"}\n"; if(write(fd, e, sizeof e - 1) < 0) _exit(77);
  close(fd); raise(sig);
}
static void atend() { if(!strcmp(kind, "exit")) fire(); }
struct Lines : std::streambuf
{
  std::streambuf* to = nullptr;
  void line() { ++lines; if(!strcmp(kind, "line") && lines >= at) fire(); }
  int overflow(int c) override { if(c == EOF) return 0; int r = to->sputc((char)c); if(c == '\n') line(); return r; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { std::streamsize r = to->sputn(s, n); for(std::streamsize i = 0; i < n; ++i) if(s[i] == '\n') { line(); } return r; }
  int sync() override { return to->pubsync(); }
};
static struct Setup
{
  Setup()
  {
    const char* p = getenv("HOST_POINT"); if(!p || !getenv("HOST_EVENTS")) return;
    sscanf(p, "%15s %d %d", kind, &at, &sig);
    atexit(atend);
    if(!strcmp(kind, "line")) { static std::ios_base::Init i; Lines* l = new Lines; l->to = std::cout.rdbuf(l); }
  }
} setup __attribute__((init_priority(101)));

extern "C" int __real_sigaction(int s, const struct sigaction* n, struct sigaction* o);
extern "C" int __wrap_sigaction(int s, const struct sigaction* n, struct sigaction* o)
{
  int r = __real_sigaction(s, n, o);
  if(n && !strcmp(kind, "hook") && s == sig && n->sa_handler != SIG_IGN) fire();
  return r;
}

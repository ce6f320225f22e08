// A stand-in for libzmq inside one process: PUB and SUB sockets that are connected by the ports of their endpoints.  What is
// sent is received without delay, in order and completely, once both ends exist and the receiver has subscribed.  A socket may
// only be used by one thread at a time: each use writes to the socket, so that lpsched reports uses that are not ordered.
#ifndef ZMQ_BUILD_DRAFT_API
#define ZMQ_BUILD_DRAFT_API
#endif
#include <zmq.h>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <chrono>
#include <thread>
#include "lpsched/lpsched.h"

typedef std::vector<std::string> Parts;
struct Sock { int type; void* ctx; long used; bool closed, shut; std::set<std::string> bound, conn; std::list<std::string> subs; std::deque<Parts> in; Parts cur; size_t at; Parts out; int rcvtimeo, linger; std::set<std::string> met; bool stuck; };
struct Ctx { int open; bool shut, gone, never; };
struct Msg { std::string data; char* ext; size_t n; zmq_free_fn* f; void* hint; bool more; char* mem() { return ext ? ext : n ? &data[0] : nullptr; } };
struct Quiet { Quiet() { lps_quiet_begin(); } ~Quiet() { lps_quiet_end(); } };
static std::list<Sock*> socks;
static thread_local int lasterr;

static int fail(int e) { lasterr = e; errno = e; return -1; }
static void misuse(const char* what) { lps_event("{\"t\":%d,\"e\":\"misuse\",\"what\":\"%s\"}", lps_self(), what); }
static Sock* use(void* s, const char* what)
{
  if(!s) { fail(ENOTSOCK); return nullptr; }
  Sock* k = (Sock*)s; ++k->used;
  if(k->closed) { misuse(what); fail(ENOTSOCK); return nullptr; }
  if(k->shut) { fail(ETERM); return nullptr; }
  return k;
}
static std::string port(const std::string& a) { size_t i = a.find_last_of(':'); return i == std::string::npos ? a : a.substr(i + 1); }
static bool linked(Sock* p, Sock* s)
{
  for(const std::string& b : p->bound) if(s->conn.count(b)) return true;
  for(const std::string& c : p->conn) if(s->bound.count(c)) return true;
  return false;
}
static int pushes;
static void push(Sock* p)
{
  if(++pushes > 200) { if(pushes == 201) misuse("messages go round and round"); p->out.clear(); return; }
  for(Sock* s : socks)
  {
    if(s->type != ZMQ_SUB || s->closed || !linked(p, s)) continue;
    for(const std::string& f : s->subs) if(p->out[0].compare(0, f.size(), f) == 0) { s->in.push_back(p->out); for(const std::string& b : s->bound) if(p->conn.count(b)) p->met.insert(b); break; }
  }
  // What is sent to a peer that was there and went away waits for its return.
  for(const std::string& c : p->met) { bool there = false; for(Sock* s : socks) there = there || s->bound.count(c); p->stuck = p->stuck || !there; }
  p->out.clear();
}
static int sendpart(Sock* k, const char* d, size_t n, int flags)
{
  if(k->type == ZMQ_SUB) return fail(ENOTSUP);
  Quiet q; k->out.push_back(std::string(d, n)); if(!(flags & ZMQ_SNDMORE)) push(k);
  return (int)n;
}
// 1: a part, 0: none
static int nextpart(Sock* k, std::string& part, bool& more)
{
  Quiet q;
  if(k->at >= k->cur.size()) { if(k->in.empty()) return 0; k->cur = k->in.front(); k->in.pop_front(); k->at = 0; }
  part = k->cur[k->at++]; more = k->at < k->cur.size();
  return 1;
}
static int recvpart(void* s, std::string& part, bool& more, int flags)
{
  Sock* k = use(s, "receive on a closed socket"); if(!k) return -1;
  if(k->type == ZMQ_PUB) return fail(ENOTSUP);
  for(int waited = 0;; ++waited)
  {
    if(nextpart(k, part, more)) return 0;
    if((flags & ZMQ_DONTWAIT) || (k->rcvtimeo >= 0 && waited >= k->rcvtimeo)) return fail(EAGAIN);
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if(k->shut || ((Ctx*)k->ctx)->shut) return fail(ETERM);
  }
}
static Msg*& M(const zmq_msg_t* m) { return *(Msg**)m; }

extern "C" {
int zmq_errno(void) { return lasterr; }
const char* zmq_strerror(int e) { return strerror(e); }
void zmq_version(int* a, int* b, int* c) { if(a) *a = 4; if(b) *b = 3; if(c) *c = 5; }
void* zmq_ctx_new(void) { Quiet q; Ctx* c = new Ctx(); c->open = 0; c->shut = c->gone = c->never = false; return c; }
void* zmq_init(int) { return zmq_ctx_new(); }
int zmq_ctx_set(void*, int, int) { return 0; }
int zmq_ctx_get(void*, int) { return 0; }
int zmq_ctx_shutdown(void* c) { if(!c) return fail(EFAULT); Ctx* x = (Ctx*)c; if(x->gone) { misuse("context used after its end"); return fail(EFAULT); } Quiet q; x->shut = true; for(Sock* s : socks) if(s->ctx == c) s->shut = true; return 0; }
int zmq_ctx_term(void* c)
{
  if(!c) return fail(EFAULT);
  Ctx* x = (Ctx*)c; if(x->gone) { misuse("context used after its end"); return fail(EFAULT); }
  zmq_ctx_shutdown(c);
  if(x->never) misuse("context never ends: messages to a peer that went away");
  for(int i = 0; x->open > 0; ++i) { if(i == 20000) { misuse("context ended with open sockets"); break; } std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
  x->gone = true; return 0;
}
int zmq_term(void* c) { return zmq_ctx_term(c); }
int zmq_ctx_destroy(void* c) { return zmq_ctx_term(c); }
void* zmq_socket(void* c, int type)
{
  if(!c) { fail(EFAULT); return nullptr; }
  Quiet q; Ctx* x = (Ctx*)c; if(x->shut || x->gone) { fail(ETERM); return nullptr; }
  Sock* s = new Sock(); s->type = type; s->ctx = c; s->used = 0; s->closed = s->shut = false; s->at = 0; s->rcvtimeo = s->linger = -1; s->stuck = false; ++x->open; socks.push_back(s); return s;
}
int zmq_close(void* s)
{
  if(!s) return fail(ENOTSOCK);
  Sock* k = (Sock*)s; ++k->used;
  if(k->closed) { misuse("socket closed twice"); return fail(ENOTSOCK); }
  Quiet q; k->closed = true; if(k->stuck && k->linger < 0) ((Ctx*)k->ctx)->never = true; k->bound.clear(); k->conn.clear(); --((Ctx*)k->ctx)->open; return 0;
}
int zmq_bind(void* s, const char* a)
{
  Sock* k = use(s, "bind of a closed socket"); if(!k) return -1;
  Quiet q; for(Sock* o : socks) if(o->bound.count(port(a))) return fail(EADDRINUSE);
  k->bound.insert(port(a)); return 0;
}
int zmq_connect(void* s, const char* a) { Sock* k = use(s, "connect of a closed socket"); if(!k) return -1; Quiet q; k->conn.insert(port(a)); return 0; }
int zmq_unbind(void* s, const char* a) { Sock* k = use(s, "unbind of a closed socket"); if(!k) return -1; Quiet q; k->bound.erase(port(a)); return 0; }
int zmq_disconnect(void* s, const char* a) { Sock* k = use(s, "disconnect of a closed socket"); if(!k) return -1; Quiet q; k->conn.erase(port(a)); return 0; }
int zmq_setsockopt(void* s, int o, const void* v, size_t n)
{
  Sock* k = use(s, "option of a closed socket"); if(!k) return -1;
  Quiet q; std::string t((const char*)(v ? v : ""), n);
  if(o == ZMQ_SUBSCRIBE) k->subs.push_back(t);
  else if(o == ZMQ_UNSUBSCRIBE) { for(auto i = k->subs.begin(); i != k->subs.end(); ++i) if(*i == t) { k->subs.erase(i); break; } }
  else if(o == ZMQ_RCVTIMEO && n == sizeof(int)) memcpy(&k->rcvtimeo, v, n);
  else if(o == ZMQ_LINGER && n == sizeof(int)) memcpy(&k->linger, v, n);
  return 0;
}
int zmq_getsockopt(void* s, int o, void* v, size_t* n)
{
  Sock* k = use(s, "option of a closed socket"); if(!k) return -1;
  if(*n < sizeof(int)) return fail(EINVAL);
  int r = 0;
  { Quiet q; if(o == ZMQ_RCVMORE) r = k->at < k->cur.size(); else if(o == ZMQ_TYPE) r = k->type; else if(o == ZMQ_RCVTIMEO) r = k->rcvtimeo; else if(o == ZMQ_EVENTS) r = (k->at < k->cur.size() || !k->in.empty() ? ZMQ_POLLIN : 0) | (k->type == ZMQ_PUB ? ZMQ_POLLOUT : 0); }
  memcpy(v, &r, sizeof r); *n = sizeof r; return 0;
}
int zmq_msg_init(zmq_msg_t* m) { Quiet q; M(m) = new Msg(); M(m)->ext = nullptr; M(m)->n = 0; M(m)->f = nullptr; M(m)->more = false; return 0; }
int zmq_msg_init_size(zmq_msg_t* m, size_t n) { zmq_msg_init(m); Quiet q; M(m)->n = n; M(m)->ext = (char*)malloc(n + 1); return 0; }
int zmq_msg_init_buffer(zmq_msg_t* m, const void* d, size_t n) { zmq_msg_init_size(m, n); if(n) memcpy(M(m)->ext, d, n); return 0; }
int zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* f, void* h) { zmq_msg_init(m); M(m)->ext = (char*)d; M(m)->n = n; M(m)->f = f; M(m)->hint = h; return 0; }
int zmq_msg_close(zmq_msg_t* m) { Msg* k = M(m); if(!k) return fail(EFAULT); if(k->f) k->f(k->ext, k->hint); k->f = nullptr; M(m) = nullptr; return 0; }
int zmq_msg_move(zmq_msg_t* d, zmq_msg_t* s) { M(d) = M(s); zmq_msg_init(s); return 0; }
int zmq_msg_copy(zmq_msg_t* d, zmq_msg_t* s) { Quiet q; Msg* k = new Msg(*M(s)); if(M(s)->ext) { k->ext = (char*)malloc(k->n + 1); memcpy(k->ext, M(s)->ext, k->n); k->f = nullptr; } M(d) = k; return 0; }
void* zmq_msg_data(zmq_msg_t* m) { Quiet q; return M(m)->mem(); }
size_t zmq_msg_size(const zmq_msg_t* m) { Quiet q; return M(m)->n; }
int zmq_msg_more(const zmq_msg_t* m) { Quiet q; return M(m)->more; }
int zmq_msg_get(const zmq_msg_t* m, int p) { return p == ZMQ_MORE ? zmq_msg_more(m) : fail(EINVAL); }
int zmq_msg_set(zmq_msg_t*, int, int) { return fail(EINVAL); }
const char* zmq_msg_gets(const zmq_msg_t*, const char*) { fail(EINVAL); return nullptr; }
int zmq_msg_send(zmq_msg_t* m, void* s, int flags)
{
  Sock* k = use(s, "send on a closed socket"); if(!k) return -1;
  Msg* x = M(m); if(!x) return fail(EFAULT);
  int r = sendpart(k, x->mem() ? x->mem() : "", x->n, flags);
  if(r >= 0) { if(x->f) x->f(x->ext, x->hint); zmq_msg_init(m); }
  return r;
}
int zmq_sendmsg(void* s, zmq_msg_t* m, int flags) { return zmq_msg_send(m, s, flags); }
int zmq_send(void* s, const void* d, size_t n, int flags) { Sock* k = use(s, "send on a closed socket"); if(!k) return -1; return sendpart(k, d ? (const char*)d : "", n, flags); }
int zmq_send_const(void* s, const void* d, size_t n, int flags) { return zmq_send(s, d, n, flags); }
int zmq_msg_recv(zmq_msg_t* m, void* s, int flags)
{
  std::string part; bool more = false;
  if(recvpart(s, part, more, flags) < 0) return -1;
  Quiet q; Msg* k = M(m); if(!k) return fail(EFAULT);
  k->ext = (char*)malloc(part.size() + 1); memcpy(k->ext, part.data(), part.size()); k->n = part.size(); k->more = more; k->f = nullptr;
  return (int)part.size();
}
int zmq_recvmsg(void* s, zmq_msg_t* m, int flags) { return zmq_msg_recv(m, s, flags); }
int zmq_recv(void* s, void* d, size_t n, int flags) { std::string part; bool more; if(recvpart(s, part, more, flags) < 0) return -1; Quiet q; memcpy(d, part.data(), part.size() < n ? part.size() : n); return (int)part.size(); }
int zmq_poll(zmq_pollitem_t* items, int n, long timeout)
{
  for(long waited = 0;; ++waited)
  {
    int ready = 0;
    for(int i = 0; i < n; ++i)
    {
      items[i].revents = 0; Sock* k = use(items[i].socket, "poll on a closed socket"); if(!k) return -1;
      Quiet q;
      if((items[i].events & ZMQ_POLLIN) && k->type == ZMQ_SUB && (k->at < k->cur.size() || !k->in.empty())) items[i].revents |= ZMQ_POLLIN;
      if((items[i].events & ZMQ_POLLOUT) && k->type == ZMQ_PUB) items[i].revents |= ZMQ_POLLOUT;
      ready += items[i].revents != 0;
    }
    if(ready || (timeout >= 0 && waited >= timeout)) return ready;
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
}
int zmq_has(const char*) { return 0; }
}

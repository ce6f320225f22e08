// Executes bus programs (see checks/busprogs.py for the language) against the real bus under lpsched and writes one trace
// per distinct schedule. Usage: bus_driver PROGRAMS OUT SEED SCHEDULES MODE
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <sched.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <lamppost/bus/Bus.h>
#include <lamppost/exceptions/ArgumentNullException.h>
#include <lamppost/exceptions/DuplicateKeyException.h>
#include <lamppost/exceptions/KeyNotFoundException.h>

#include "lpsched/lpsched.h"
#include "payload.h"

using namespace lp;

struct Op { int only; std::string name; std::vector<std::string> a; int n(size_t i) const { return i < a.size() ? atoi(a[i].c_str()) : -1; } };
struct Prog { std::string tag; std::vector<std::vector<Op>> threads; std::vector<std::vector<Op>> cbs; };

static const int F_BUS = 0, F_SUB = 1000, F_PUB = 2000, F_USER = 3000, F_THR = 4000;
static std::shared_ptr<bus::Bus> busv[512];
static std::shared_ptr<bus::Subscriber> subv[512];
static std::shared_ptr<bus::Publisher> pubv[512];
static std::thread thrv[64];
static int cbcount[512];

static std::string qcanon(messages::Datagram d) { lps_quiet_begin(); std::string s = canon(d); lps_quiet_end(); return s; }

static const Prog* prog;
static void exec(const std::vector<Op>& ops, int invocation);

// Names, senders and topics of programs and traces: unusual characters as %XX.
static std::string enc(const std::string& s) { std::string r; for(unsigned char c : s) { char b[8]; if(isgraph(c) && c != '%' && c != '"' && c != '\\') r += (char)c; else { snprintf(b, sizeof b, "%%%02x", c); r += b; } } return r; }
static void entered(int s, int k, const std::string& snd, const std::string& top, const std::string& v)
{
  lps_event("{\"t\":%d,\"e\":\"cb\",\"s\":%d,\"k\":%d,\"snd\":\"%s\",\"top\":\"%s\",\"v\":\"%s\"}", lps_self(), s, k, snd.c_str(), top.c_str(), v.c_str());
}
static void body(int s, int k)
{
  lps_quiet_begin(); int c = ++cbcount[k]; lps_quiet_end();
  exec(prog->cbs[k], c);
  lps_event("{\"t\":%d,\"e\":\"ce\",\"s\":%d}", lps_self(), s);
}
static std::function<void(messages::Message)> mcb(int s, int k)
{
  return [s, k](messages::Message m) mutable
  {
    lps_quiet_begin(); std::string snd = enc(m.GetSender()), top = enc(m.GetTopic()), v = canon(m.GetDatagram()); lps_quiet_end();
    entered(s, k, snd, top, v);
    messages::Datagram d = m.GetDatagram();
    mutate(d);
    m.PrependSender("intruder");
    body(s, k);
  };
}
static std::function<void(messages::Datagram)> dcb(int s, int k)
{
  return [s, k](messages::Datagram d) mutable
  {
    entered(s, k, "*", "*", qcanon(d));
    mutate(d);
    body(s, k);
  };
}

static void call(const char* fmt, const std::string& args) { lps_event("{\"t\":%d,\"e\":\"c\",\"op\":\"%s\"%s}", lps_self(), fmt, args.c_str()); }
// Identity of a bus object, as seen by the user: a number per address.
static void* known[256]; static int nknown;
static int ident(const std::shared_ptr<bus::Bus>& b)
{
  if(b == nullptr) return -3;
  lps_quiet_begin();
  int i = 0; while(i < nknown && known[i] != b.get()) ++i;
  if(i == nknown) known[nknown++] = b.get();
  lps_quiet_end();
  return i;
}
static void reth(const std::string& x, int h) { lps_event("{\"t\":%d,\"e\":\"r\",\"x\":\"%s\",\"v\":-1,\"h\":%d}", lps_self(), x.c_str(), h); }
static void ret(const std::string& x, int v) { lps_event("{\"t\":%d,\"e\":\"r\",\"x\":\"%s\",\"v\":%d}", lps_self(), x.c_str(), v); }
static std::string J(const char* k, int v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static std::string J(const char* k, const std::string& v) { return std::string(",\"") + k + "\":\"" + (strcmp(k, "v") ? enc(v) : v) + "\""; }

static std::string guarded(const std::function<void()>& f)
{
  try { f(); }
  catch(exceptions::ArgumentNullException&) { return "ArgumentNull"; }
  catch(exceptions::DuplicateKeyException&) { return "DuplicateKey"; }
  catch(exceptions::KeyNotFoundException&) { return "KeyNotFound"; }
  catch(exceptions::InvalidOperationException&) { return "InvalidOperation"; }
  catch(std::exception& e) { return "Other"; }
  return "";
}
static std::string str(const std::string& s)
{
  std::string r;
  if(s == "~") return r;
  for(size_t i = 0; i < s.size(); ++i) if(s[i] == '%') { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i];
  return r;
}

static void run(const Op& o)
{
  std::string x; int v = -1;
  auto Q = [](const std::function<std::string()>& f) { lps_quiet_begin(); std::string s = f(); lps_quiet_end(); return s; };
  if(o.name == "root")
  {
    call("root", Q([&] { return J("b", o.n(0)) + J("n", str(o.a[1])); }));
    x = guarded([&] { busv[o.n(0)] = std::make_shared<bus::Bus>(str(o.a[1])); });
    ret(x, v); lps_flag_set(F_BUS + o.n(0));
  }
  else if(o.name == "rootnull")
  {
    call("rootnull", "");
    x = guarded([&] { bus::Bus b(std::string("x"), std::function<void(messages::Message)>(nullptr)); });
    ret(x, v);
  }
  else if(o.name == "child")
  {
    int b = o.n(0), p = o.n(1); lps_flag_wait(F_BUS + p);
    if(!busv[p]) { lps_flag_set(F_BUS + b); return; }
    bus::Bus* pb = busv[p].get();
    call("child", Q([&] { return J("b", b) + J("p", p) + J("n", str(o.a[2])); }));
    std::shared_ptr<bus::Bus> r;
    x = guarded([&] { r = pb->CreateChildBus(str(o.a[2])); });
    busv[b] = r;
    if(x.empty()) reth(x, ident(r)); else ret(x, v);
    lps_flag_set(F_BUS + b);
  }
  else if(o.name == "get")
  {
    int p = o.n(0); lps_flag_wait(F_BUS + p); if(!busv[p]) return;
    bus::Bus* pb = busv[p].get();
    call("get", Q([&] { return J("p", p) + J("n", str(o.a[1])); }));
    std::shared_ptr<bus::Bus> r;
    x = guarded([&] { r = pb->GetChildBus(str(o.a[1])); });
    if(x.empty()) reth(x, ident(r)); else ret(x, v);
  }
  else if(o.name == "sub" || o.name == "subd")
  {
    int s = o.n(0), b = o.n(1); lps_flag_wait(F_BUS + b); if(!busv[b]) { lps_flag_set(F_SUB + s); return; }
    bus::Bus* bb = busv[b].get(); int k = o.n(3);
    call("sub", Q([&] { return J("s", s) + J("b", b) + J("top", str(o.a[2])) + J("k", o.name == "subd" ? k : -1); }));
    std::shared_ptr<bus::Subscriber> r;
    if(o.name == "sub") x = guarded([&] { r = bb->CreateSubscriber(str(o.a[2])); });
    else x = guarded([&] { r = bb->CreateSubscriber(str(o.a[2]), dcb(s, k)); });
    subv[s] = r;
    ret(x, v); lps_flag_set(F_SUB + s);
  }
  else if(o.name == "setcb" || o.name == "setcbd")
  {
    int s = o.n(0), k = o.n(1); lps_flag_wait(F_SUB + s); if(!subv[s]) return;
    bus::Subscriber* ss = subv[s].get();
    call("setcb", Q([&] { return J("s", s) + J("k", k); }));
    x = guarded([&] { if(k < 0) ss->SetMessageCallback(nullptr); else if(o.name == "setcb") ss->SetMessageCallback(mcb(s, k)); else ss->SetDatagramCallback(dcb(s, k)); });
    ret(x, v);
  }
  else if(o.name == "delsub")
  {
    int b = o.n(0), s = o.n(1); lps_flag_wait(F_SUB + s); if(!subv[s]) return;
    std::shared_ptr<bus::Subscriber> ss = subv[s];
    call("delsub", Q([&] { return J("b", b) + J("s", s); }));
    x = guarded([&] { busv[b]->DeleteSubscriber(ss); });
    ret(x, v);
  }
  else if(o.name == "pub")
  {
    int p = o.n(0), b = o.n(1); lps_flag_wait(F_BUS + b); if(!busv[b]) { lps_flag_set(F_PUB + p); return; }
    bus::Bus* bb = busv[b].get();
    call("pub", Q([&] { return J("p", p) + J("b", b) + J("top", str(o.a[2])); }));
    std::shared_ptr<bus::Publisher> r;
    x = guarded([&] { r = bb->CreatePublisher(str(o.a[2])); });
    pubv[p] = r;
    ret(x, v); lps_flag_set(F_PUB + p);
  }
  else if(o.name == "delpub")
  {
    int b = o.n(0), p = o.n(1); lps_flag_wait(F_PUB + p); if(!pubv[p]) return;
    std::shared_ptr<bus::Publisher> pp = pubv[p];
    call("delpub", Q([&] { return J("b", b) + J("p", p); }));
    x = guarded([&] { busv[b]->DeletePublisher(pp); });
    ret(x, v);
  }
  else if(o.name == "publish")
  {
    int p = o.n(0); lps_flag_wait(F_PUB + p); if(!pubv[p]) return;
    bus::Publisher* pp = pubv[p].get();
    messages::Datagram d = payload(o.n(1));
    call("publish", Q([&] { return J("p", p) + J("v", canon(d)); }));
    x = guarded([&] { pp->Publish(d); });
    ret(x, v);
    mutate(d);
  }
  else if(o.name == "bpub")   // bpub bus sender topic v
  {
    int b = o.n(0); lps_flag_wait(F_BUS + b); if(!busv[b]) return;
    bus::Bus* bb = busv[b].get();
    messages::Datagram d = payload(o.n(3));
    messages::Message m(str(o.a[1]), str(o.a[2]), d);
    mutate(d);
    call("bpub", Q([&] { return J("b", b) + J("snd", str(o.a[1])) + J("top", str(o.a[2])) + J("v", canon(m.GetDatagram())); }));
    x = guarded([&] { bb->Publish(m); });
    ret(x, v);
    m.PrependSender("late");
  }
  else if(o.name == "start" || o.name == "stop" || o.name == "detach")
  {
    int b = o.n(0); lps_flag_wait(F_BUS + b); if(!busv[b]) return;
    bus::Bus* bb = busv[b].get();
    call(o.name.c_str(), Q([&] { return J("b", b); }));
    x = guarded([&] { if(o.name == "start") bb->Start(); else if(o.name == "stop") bb->Stop(); else bb->Detach(); });
    ret(x, v);
  }
  else if(o.name == "destroy")
  {
    int b = o.n(0); lps_flag_wait(F_BUS + b); if(!busv[b]) return;
    std::shared_ptr<bus::Bus> mine; mine.swap(busv[b]);
    call("destroy", Q([&] { return J("b", b); }));
    x = guarded([&] { mine = nullptr; });
    ret(x, v);
  }
  else if(o.name == "has" || o.name == "hasp")
  {
    int b = o.n(0), s = o.n(1); lps_flag_wait((o.name == "has" ? F_SUB : F_PUB) + s);
    if(!busv[b] || (o.name == "has" ? !subv[s] : !pubv[s])) return;
    bus::Bus* bb = busv[b].get();
    call(o.name.c_str(), Q([&] { return J("b", b) + J(o.name == "has" ? "s" : "p", s); }));
    bool r = false;
    x = guarded([&] { r = o.name == "has" ? bb->ContainsSubscriber(subv[s]) : bb->ContainsPublisher(pubv[s]); });
    ret(x, r ? 1 : 0);
  }
  else if(o.name == "idle") { lps_idle(o.n(0)); lps_event("{\"t\":%d,\"e\":\"idle\",\"us\":%d}", lps_self(), o.n(0)); }
  else if(o.name == "spawn") { int t = o.n(0); thrv[t] = std::thread([t] { exec(prog->threads[t], 0); }); }
  else if(o.name == "join") { thrv[o.n(0)].join(); }
  else if(o.name == "wait") lps_flag_wait(F_USER + o.n(0));
  else if(o.name == "set") lps_flag_set(F_USER + o.n(0));
  else if(o.name == "sleep") std::this_thread::sleep_for(std::chrono::microseconds(o.n(0)));
  else if(o.name == "waitsub") lps_flag_wait(F_SUB + o.n(0));
  else if(o.name == "waitbus") lps_flag_wait(F_BUS + o.n(0));
  else { fprintf(stderr, "unknown op %s\n", o.name.c_str()); _exit(3); }
}
static void exec(const std::vector<Op>& ops, int invocation)
{
  for(size_t i = 0; i < ops.size(); ++i) if(ops[i].only == 0 || ops[i].only == invocation) run(ops[i]);
}
static void scenario(void*) { exec(prog->threads[0], 0); }

static std::vector<Op> parseops(const std::string& s)
{
  std::vector<Op> r; std::stringstream ss(s); std::string part;
  while(std::getline(ss, part, ';'))
  {
    std::stringstream ps(part); std::string w; Op o; o.only = 0;
    if(!(ps >> w)) continue;
    size_t c = w.find(':'); if(c != std::string::npos && c > 0 && isdigit(w[0])) { o.only = atoi(w.c_str()); w = w.substr(c + 1); }
    o.name = w; while(ps >> w) o.a.push_back(w);
    static const char* const ops[] = {"root", "rootnull", "child", "get", "sub", "subd", "setcb", "setcbd", "delsub", "pub", "delpub", "publish", "bpub", "start", "stop", "detach", "destroy", "has", "hasp", "idle", "spawn", "join", "wait", "set", "sleep", "waitsub", "waitbus"};
    bool ok = false; for(const char* k : ops) ok = ok || o.name == k;
    if(!ok) { fprintf(stderr, "unknown op %s\n", o.name.c_str()); exit(2); }
    r.push_back(o);
  }
  return r;
}
int main(int argc, char** argv)
{
  if(argc < 6) return 2;
  std::ifstream in(argv[1]); std::vector<Prog> progs; std::string line;
  while(std::getline(in, line))
  {
    std::stringstream ls(line); std::string w; ls >> w;
    std::string rest; std::getline(ls, rest);
    if(w == "prog") { progs.emplace_back(); progs.back().tag = rest.substr(1); }
    else if(w == "thr") progs.back().threads.push_back(parseops(rest));
    else if(w == "cbs") progs.back().cbs.push_back(parseops(rest));
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  lps_stats st = {};
  for(size_t i = 0; i < progs.size(); ++i)
  {
    prog = &progs[i];
    size_t ops = 0; for(auto& t : prog->threads) ops += t.size(); for(auto& t : prog->cbs) ops += t.size();
    lps_limit(400000 + (ops > 100 ? 20000ull * ops : 0));
    lps_explore(fd, prog->tag.c_str(), scenario, nullptr, (unsigned)atoi(argv[3]) + 7919u * (unsigned)i, atoi(argv[4]), atoi(argv[5]), &st);
  }
  close(fd);
  printf("{\"programs\":%zu,\"schedules\":%lld,\"distinct\":%lld,\"steps\":%lld,\"switches\":%lld,\"racy\":%lld}\n", progs.size(), st.schedules, st.distinct, st.steps, st.switches, st.races);
  return 0;
}

// Executes action request programs (see checks/rpcprogs.py) against the real bus under lpsched.
// Usage: rpc_driver PROGRAMS OUT SEED SCHEDULES MODE
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <lamppost/bus/Bus.h>
#include <lamppost/exceptions/ArgumentNullException.h>

#include "lpsched/lpsched.h"
#include "payload.h"

using namespace lp;

struct Op { int only; std::string name; std::vector<std::string> a; int n(size_t i) const { return i < a.size() ? atoi(a[i].c_str()) : -1; } };
struct Prog { std::string tag; std::vector<std::vector<Op>> threads; std::vector<std::vector<Op>> cbs; };

static const int F_PROV = 0, F_CONS = 1000, F_REQ = 2000, F_USER = 3000, F_BUS = 4000;
static std::shared_ptr<bus::Bus> busv[64];
static std::shared_ptr<bus::ActionProvider> provv[256];
static std::shared_ptr<bus::ActionConsumer> consv[256];
static std::thread thrv[16];
static std::string idof[512];             // request -> identifier, as told to the first provider that was called for it
static std::string reqval[512];           // request -> canonical payload
static std::string ids[2048]; static int nids;
static int cbcount[512];
static const Prog* prog;

static int idnum(const std::string& s)
{
  for(int i = 0; i < nids; ++i) if(ids[i] == s) return i;
  ids[nids] = s; return nids++;
}
struct Ctx { int p; std::string id; };
static void exec(const std::vector<Op>& ops, int invocation, const Ctx* ctx);

// Waits for a flag, but not forever: whether a request is ever seen by a provider depends on the schedule.
static bool poll(int flag)
{
  static const int step[] = {0, 1000, 9000, 40000, 200000, 700000, 1500000};
  for(int us : step) { if(us) std::this_thread::sleep_for(std::chrono::microseconds(us)); if(lps_flag_isset(flag)) return true; }
  return false;
}
#define EV(fmt, ...) lps_event("{\"t\":%d,\"us\":%lld," fmt "}", lps_self(), lps_now_us(), ##__VA_ARGS__)

static void script(int k, const Ctx* ctx)
{
  if(k < 0) return;
  lps_quiet_begin(); int c = ++cbcount[k]; lps_quiet_end();
  exec(prog->cbs[k], c, ctx);
}
static void respond(const std::shared_ptr<bus::ActionProvider>& p, int pi, const std::string& id, int v)
{
  messages::Datagram d = payload(v);
  lps_quiet_begin(); int i = idnum(id); std::string cv = canon(d); lps_quiet_end();
  EV("\"e\":\"c\",\"op\":\"resp\",\"p\":%d,\"id\":%d,\"v\":\"%s\"", pi, i, cv.c_str());
  p->Respond(id, d);
  EV("\"e\":\"r\",\"v\":\"\"");
  mutate(d);
}
static void run(const Op& o, const Ctx* ctx)
{
  if(o.name == "bus")
  {
    int b = o.n(0), p = o.n(1);
    if(p < 0) busv[b] = std::make_shared<bus::Bus>(o.a[2]); else busv[b] = busv[p]->CreateChildBus(o.a[2]);
    lps_flag_set(F_BUS + b);
  }
  else if(o.name == "prov")   // prov p b topic k
  {
    int p = o.n(0), k = o.n(3);
    EV("\"e\":\"c\",\"op\":\"prov\",\"p\":%d,\"top\":\"%s\"", p, o.a[2].c_str());
    std::shared_ptr<bus::ActionProvider> made = busv[o.n(1)]->CreateActionProvider(o.a[2],
      [p, k](std::shared_ptr<bus::ActionProvider> self, std::string id, messages::Datagram d)
      {
        lps_quiet_begin();
        int i = idnum(id); std::string cv, inner;
        if(d.GetType() == messages::RawDatagramType::Dictionary && d.KeyExists("request")) cv = canon(d["request"]); else cv = "?";
        if(!(d.GetType() == messages::RawDatagramType::Dictionary && d.Get<std::string>("invocationId", "") == id)) cv = "wrong id in the request";
        int r = -1; bool known = false;
        for(int j = 0; j < 512; ++j) known = known || idof[j] == id;
        for(int j = 0; j < 512 && !known && r < 0; ++j) if(!reqval[j].empty() && reqval[j] == cv && idof[j].empty()) r = j;
        bool first = r >= 0; if(first) idof[r] = id;
        lps_quiet_end();
        EV("\"e\":\"pq\",\"p\":%d,\"id\":%d,\"v\":\"%s\"", p, i, cv.c_str());
        if(first) lps_flag_set(F_REQ + r);
        Ctx c{p, id};
        lps_quiet_begin(); if(!provv[p]) provv[p] = self; lps_quiet_end();      // called before the creation returned
        script(k, &c);
        EV("\"e\":\"pe\",\"p\":%d", p);
      });
    lps_quiet_begin(); provv[p] = made; lps_quiet_end();
    EV("\"e\":\"r\",\"v\":\"\"");
    lps_flag_set(F_PROV + p);
  }
  else if(o.name == "cons")   // cons c b topic
  {
    int c = o.n(0);
    EV("\"e\":\"c\",\"op\":\"cons\",\"c\":%d,\"top\":\"%s\"", c, o.a[2].c_str());
    consv[c] = busv[o.n(1)]->CreateActionConsumer(o.a[2]);
    EV("\"e\":\"r\",\"v\":\"\"");
    lps_flag_set(F_CONS + c);
  }
  else if(o.name == "req" || o.name == "breq")
  {
    int r = o.n(0), c = o.n(1), x = o.n(3); lps_flag_wait(F_CONS + c);
    messages::Datagram d = payload(o.n(2));
    lps_quiet_begin(); std::string cv = canon(d); reqval[r] = cv; lps_quiet_end();
    if(o.name == "req")
    {
      EV("\"e\":\"c\",\"op\":\"req\",\"r\":%d,\"c\":%d,\"v\":\"%s\"", r, c, cv.c_str());
      consv[c]->RequestAsync(d, [r, x](messages::Datagram resp)
        {
          lps_quiet_begin(); std::string rv = canon(resp); lps_quiet_end();
          EV("\"e\":\"rc\",\"r\":%d,\"v\":\"%s\"", r, rv.c_str());
          script(x, nullptr);
          EV("\"e\":\"re\",\"r\":%d", r);
        });
      EV("\"e\":\"r\",\"v\":\"\"");
    }
    else
    {
      EV("\"e\":\"c\",\"op\":\"breq\",\"r\":%d,\"c\":%d,\"v\":\"%s\",\"T\":%d", r, c, cv.c_str(), x * 1000);
      messages::Datagram resp = consv[c]->Request(d, x);
      lps_quiet_begin(); std::string rv = canon(resp); lps_quiet_end();
      EV("\"e\":\"r\",\"v\":\"%s\"", rv.c_str());
    }
    mutate(d);
  }
  else if(o.name == "reqnull")
  {
    int c = o.n(0); lps_flag_wait(F_CONS + c);
    EV("\"e\":\"c\",\"op\":\"reqnull\",\"c\":%d", c);
    std::string x = "";
    try { consv[c]->RequestAsync(payload(o.n(1)), nullptr); } catch(exceptions::ArgumentNullException&) { x = "ArgumentNull"; } catch(std::exception&) { x = "Other"; }
    EV("\"e\":\"r\",\"v\":\"%s\"", x.c_str());
  }
  else if(o.name == "resp") { int r = o.n(1); if(!poll(F_REQ + r) || !poll(F_PROV + o.n(0))) return; lps_quiet_begin(); std::string id = idof[r]; lps_quiet_end(); respond(provv[o.n(0)], o.n(0), id, o.n(2)); }
  else if(o.name == "respid") { if(!poll(F_PROV + o.n(0))) return; respond(provv[o.n(0)], o.n(0), o.a[1], o.n(2)); }
  else if(o.name == "now") { if(ctx) respond(provv[ctx->p], ctx->p, ctx->id, o.n(0)); }
  else if(o.name == "raw")    // raw b topic kind(q,s) idspec v
  {
    int b = o.n(0), v = o.n(4); const std::string& spec = o.a[3]; bool q = o.a[2] == "q";
    std::string id; int shown = -1;
    messages::Datagram d; messages::Datagram body = payload(v);
    if(spec[0] == 'r' && isdigit(spec[1])) { int r = atoi(spec.c_str() + 1); if(!poll(F_REQ + r)) return; lps_quiet_begin(); id = idof[r]; lps_quiet_end(); }
    else if(spec == "foo" || spec == "bar") id = spec;
    lps_quiet_begin();
    if(spec == "list") { d.Add(std::make_shared<messages::RawDatagram>(std::string("invocationId"))); }
    else if(spec == "value") { d = std::string("invocationId"); }
    else if(spec == "nothing") { }
    else
    {
      if(spec == "int") d["invocationId"] = 7;
      else if(spec == "bool") d["invocationId"] = true;
      else if(spec == "dict") d["invocationId"]["invocationId"] = std::string("foo");
      else if(spec == "empty") d["invocationId"] = std::string("");
      else if(!id.empty()) d["invocationId"] = id;
      d[std::string(q ? "request" : "response")] = body;
      if(!id.empty()) shown = idnum(id);
    }
    std::string cv = canon(body);
    lps_quiet_end();
    messages::Message m("raw", o.a[1] + (q ? "/request" : "/response"), d);
    EV("\"e\":\"c\",\"op\":\"raw\",\"q\":%d,\"top\":\"%s\",\"id\":%d,\"v\":\"%s\"", q ? 1 : 0, o.a[1].c_str(), shown, cv.c_str());
    busv[b]->Publish(m);
    EV("\"e\":\"r\",\"v\":\"\"");
  }
  else if(o.name == "start") { EV("\"e\":\"c\",\"op\":\"start\""); busv[0]->Start(); EV("\"e\":\"r\",\"v\":\"\""); }
  else if(o.name == "stop") { EV("\"e\":\"c\",\"op\":\"stop\""); busv[0]->Stop(); EV("\"e\":\"r\",\"v\":\"\""); }
  else if(o.name == "idle") { lps_idle(o.n(0)); EV("\"e\":\"idle\""); }
  else if(o.name == "spawn") { int t = o.n(0); thrv[t] = std::thread([t] { exec(prog->threads[t], 0, nullptr); }); }
  else if(o.name == "join") thrv[o.n(0)].join();
  else if(o.name == "sleep") std::this_thread::sleep_for(std::chrono::microseconds(o.n(0)));
  else if(o.name == "wait") lps_flag_wait(F_USER + o.n(0));
  else if(o.name == "set") lps_flag_set(F_USER + o.n(0));
  else if(o.name == "waitreq") lps_flag_wait(F_REQ + o.n(0));
}
static void exec(const std::vector<Op>& ops, int invocation, const Ctx* ctx)
{
  for(size_t i = 0; i < ops.size(); ++i) if(ops[i].only == 0 || ops[i].only == invocation) run(ops[i], ctx);
}
static void scenario(void*) { exec(prog->threads[0], 0, nullptr); }

static std::vector<Op> parseops(const std::string& s)
{
  std::vector<Op> r; std::stringstream ss(s); std::string part;
  while(std::getline(ss, part, ';'))
  {
    std::stringstream ps(part); std::string w; Op o; o.only = 0;
    if(!(ps >> w)) continue;
    size_t c = w.find(':'); if(c != std::string::npos && c > 0 && isdigit(w[0])) { o.only = atoi(w.c_str()); w = w.substr(c + 1); }
    o.name = w; while(ps >> w) o.a.push_back(w);
    static const char* const ops[] = {"bus", "prov", "cons", "req", "breq", "reqnull", "resp", "respid", "now", "raw", "start", "stop", "idle", "spawn", "join", "sleep", "wait", "set", "waitreq"};
    bool ok = false; for(const char* k : ops) ok = ok || o.name == k;
    if(!ok) { fprintf(stderr, "unknown op %s\n", o.name.c_str()); exit(2); }
    r.push_back(o);
  }
  return r;
}
int main(int argc, char** argv)
{
  if(argc < 6) return 2;
  std::ifstream in(argv[1]); std::vector<Prog> progs; std::string line;
  while(std::getline(in, line))
  {
    std::stringstream ls(line); std::string w; ls >> w;
    std::string rest; std::getline(ls, rest);
    if(w == "prog") { progs.emplace_back(); progs.back().tag = rest.substr(1); }
    else if(w == "thr") progs.back().threads.push_back(parseops(rest));
    else if(w == "cbs") progs.back().cbs.push_back(parseops(rest));
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  lps_stats st = {};
  for(size_t i = 0; i < progs.size(); ++i)
  {
    prog = &progs[i];
    size_t ops = 0; for(auto& t : prog->threads) ops += t.size(); for(auto& t : prog->cbs) ops += t.size();
    lps_limit(400000 + (ops > 100 ? 20000ull * ops : 0));
    lps_explore(fd, prog->tag.c_str(), scenario, nullptr, (unsigned)atoi(argv[3]) + 7919u * (unsigned)i, atoi(argv[4]), atoi(argv[5]), &st);
  }
  close(fd);
  printf("{\"programs\":%zu,\"schedules\":%lld,\"distinct\":%lld,\"steps\":%lld,\"switches\":%lld,\"racy\":%lld}\n", progs.size(), st.schedules, st.distinct, st.steps, st.switches, st.races);
  return 0;
}

// Executes programs on a bus with instances of the system information plugin (see checks/sysinfocheck.py) under lpsched, with
// standard output in a file of each schedule's own.  Usage: sysinfo_driver PROGRAMS OUT SEED SCHEDULES MODE
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <lamppost/bus/Bus.h>
#include <lamppost/plugin/PluginTemplate.h>

#include "lpsched/lpsched.h"
#include "payload.h"

using namespace lp;
extern "C" lp::PluginInstance* CreateInstance(lp::PluginConfiguration);

struct Op { std::string name; std::vector<std::string> a; int n(size_t i) const { return i < a.size() ? atoi(a[i].c_str()) : -1; } };
struct Prog { std::string tag; std::vector<std::string> inst; std::vector<std::vector<Op>> threads; };
static const Prog* prog;
static std::shared_ptr<bus::Bus> root, env;
static std::shared_ptr<bus::ActionConsumer> consumer;
static std::shared_ptr<PluginTemplate> tmpl;

static std::string quot(const std::string& s)
{
  std::string r = "\""; char b[8];
  for(unsigned char c : s) { if(c < 32 || c == '"' || c == '\\' || c > 126 || c == '%') { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += (char)c; }
  return r + "\"";
}
static std::string printed(messages::Datagram& d) { std::ostringstream o; o << d; return o.str(); }
// What the specification needs to know about a datagram: its text, and the invocation it names if it is a proper request or response.
static std::string content(messages::Datagram d)
{
  bool s = false; std::string raw, id;
  try { raw = d.Get<std::string>(); s = true; } catch(exceptions::InvalidOperationException&) {}
  if(d.GetType() == messages::RawDatagramType::Dictionary && d.KeyExists("invocationId")) { messages::Datagram i = d["invocationId"]; try { id = i.Get<std::string>(); } catch(exceptions::InvalidOperationException&) {} }
  return "\"tx\":" + quot(s ? raw : printed(d)) + ",\"p\":" + quot(printed(d)) + ",\"id\":" + quot(id);
}
static messages::Datagram value(int v)
{
  messages::Datagram d;
  switch(v)
  {
    case 10001: d["invocationId"] = std::string("x1"); return d;
    case 10002: d["invocationId"] = 5; d["request"] = std::string("x"); return d;
    case 10003: d["invocationId"] = std::string(""); return d;
    case 10004: d["invocationId"] = std::string("x2"); d["request"]["a"] = 1.5; return d;
    case 10005: d = 2.5; return d;
    case 10006: d = true; return d;
    case 10007: d = std::string("first\nsecond"); return d;
    case 10008: d = std::string(""); return d;
    case 10009: d["invocationId"].Add(std::make_shared<messages::RawDatagram>(1)); return d;
    case 10010: d = std::string("Hello Bus!"); return d;
    case 10011: d["response"] = std::string("This is the response message."); d["invocationId"] = std::string("x1"); return d;
  }
  return payload(v);
}
static void run(const Op& o)
{
  if(o.name == "pub")
  {
    messages::Datagram d = value(o.n(1)); lps_quiet_begin(); std::string c = content(d); lps_quiet_end();
    lps_event("{\"t\":%d,\"e\":\"c\",\"op\":\"pub\",\"top\":\"%s\",%s}", lps_self(), o.a[0].c_str(), c.c_str());
    env->Publish(messages::Message("env", o.a[0], d));
    lps_event("{\"t\":%d,\"e\":\"r\"}", lps_self());
  }
  else if(o.name == "req")
  {
    int r = o.n(0); messages::Datagram d = value(o.n(1)); lps_quiet_begin(); std::string c = quot(printed(d)); lps_quiet_end();
    lps_event("{\"t\":%d,\"e\":\"c\",\"op\":\"req\",\"r\":%d,\"p\":%s}", lps_self(), r, c.c_str());
    consumer->RequestAsync(d, [r](messages::Datagram resp) { lps_quiet_begin(); std::string p = quot(printed(resp)); lps_quiet_end(); lps_event("{\"t\":%d,\"e\":\"rc\",\"r\":%d,\"p\":%s}", lps_self(), r, p.c_str()); });
    lps_event("{\"t\":%d,\"e\":\"r\"}", lps_self());
  }
  else if(o.name == "sleep") std::this_thread::sleep_for(std::chrono::microseconds(o.n(0)));
  else { fprintf(stderr, "unknown op %s\n", o.name.c_str()); _exit(3); }
}
static void exec(int t) { for(const Op& o : prog->threads[(size_t)t]) run(o); }
static void scenario(void*)
{
  int m = memfd_create("out", 0); if(m < 0) _exit(9);
  dup2(m, 1);
  root = std::make_shared<bus::Bus>("root"); env = root->CreateChildBus("env");
  std::shared_ptr<bus::Subscriber> obs = root->CreateSubscriber("/**/*");
  obs->SetMessageCallback([](messages::Message m)
    {
      lps_quiet_begin(); std::string c = content(m.GetDatagram()), top = quot(m.GetTopic()), snd = quot(m.GetSender()); lps_quiet_end();
      lps_event("{\"t\":%d,\"e\":\"in\",\"us\":%lld,\"snd\":%s,\"top\":%s,%s}", lps_self(), lps_now_us(), snd.c_str(), top.c_str(), c.c_str());
    });
  root->Enable();
  consumer = env->CreateActionConsumer("/sysinfoaction");
  tmpl = std::make_shared<PluginTemplate>(PluginTemplateConfiguration("SysInfo", Version(0, 1, 0, 0), [](PluginConfiguration c) { return std::shared_ptr<PluginInstance>(CreateInstance(c)); }));
  for(size_t i = 0; i < prog->inst.size(); ++i)
  {
    PluginConfiguration c; const std::string& k = prog->inst[i];
    if(k == "1" || k == "0") c.mCustomConfiguration["send-datagram"] = (k == "1");
    else if(k == "s") c.mCustomConfiguration["send-datagram"] = std::string("true");
    else if(k == "i") c.mCustomConfiguration["send-datagram"] = 1;
    else if(k == "n") { c.mCustomConfiguration["other"]["send-datagram"] = true; }
    std::shared_ptr<PluginInstance> p = tmpl->Instantiate(c, root);
    p->Initialize();
    lps_event("{\"e\":\"up\",\"i\":%d,\"us\":%lld}", (int)i + 1, lps_now_us());
    p->Start();
  }
  std::thread runner([] { root->Run(); });
  std::vector<std::thread> ts; for(size_t i = 1; i + 1 < prog->threads.size(); ++i) ts.emplace_back([i] { exec((int)i); });
  exec(0);
  for(std::thread& t : ts) t.join();
  exec((int)prog->threads.size() - 1);
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
  lps_event("{\"e\":\"settled\",\"us\":%lld}", lps_now_us());
  root->Stop(); runner.join();
  lps_event("{\"e\":\"stopped\"}");
  root->Detach(); tmpl->Unload();
  lps_event("{\"e\":\"unloaded\"}");
  tmpl = nullptr; consumer = nullptr; obs = nullptr; env = nullptr; root = nullptr;
  std::this_thread::sleep_for(std::chrono::seconds(5));
  lps_quiet_begin();
  std::cout.flush(); fflush(stdout);
  std::string all; char b[4096]; ssize_t n; off_t off = 0;
  while((n = pread(1, b, sizeof b, off)) > 0) { all.append(b, (size_t)n); off += n; }
  lps_quiet_end();
  for(size_t i = 0; i < all.size();)
  {
    size_t j = all.find('\n', i); if(j == std::string::npos) j = all.size();
    lps_note("{\"e\":\"line\",\"s\":%s}", quot(all.substr(i, j - i)).c_str());
    i = j + 1;
  }
}
static std::vector<Op> parseops(const std::string& s)
{
  std::vector<Op> r; std::stringstream ss(s); std::string part;
  while(std::getline(ss, part, ';')) { std::stringstream ps(part); std::string w; Op o; if(!(ps >> w)) continue; o.name = w; while(ps >> w) o.a.push_back(w); r.push_back(o); }
  return r;
}
int main(int argc, char** argv)
{
  if(argc < 6) return 2;
  std::ifstream in(argv[1]); std::vector<Prog> progs; std::string line;
  while(std::getline(in, line))
  {
    std::stringstream ls(line); std::string w; ls >> w; std::string rest; std::getline(ls, rest); if(!rest.empty()) rest = rest.substr(1);
    if(w == "prog") { progs.emplace_back(); progs.back().tag = rest; }
    else if(w == "inst") progs.back().inst.push_back(rest);
    else if(w == "thr") progs.back().threads.push_back(parseops(rest));
  }
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  lps_stats st = {};
  for(size_t i = 0; i < progs.size(); ++i)
  {
    prog = &progs[i];
    lps_explore(fd, prog->tag.c_str(), scenario, nullptr, (unsigned)atoi(argv[3]) + 7919u * (unsigned)i, atoi(argv[4]), atoi(argv[5]), &st);
  }
  printf("{\"programs\":%zu,\"schedules\":%lld,\"distinct\":%lld,\"steps\":%lld,\"switches\":%lld,\"racy\":%lld}\n", progs.size(), st.schedules, st.distinct, st.steps, st.switches, st.races);
  close(fd);
  return 0;
}

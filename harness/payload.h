// Payloads of generated messages, their canonical text, and the changes that nobody else may see.
#ifndef PAYLOAD_H
#define PAYLOAD_H
#include <memory>
#include <string>
#include <lamppost/exceptions/InvalidOperationException.h>
#include <lamppost/messages/Datagram.h>
using namespace lp;

// Strings as they can stand in a trace; long ones by their length and a hash.
static std::string printable(const std::string& s)
{
#ifdef PAYLOAD_RAW
  return s;
#endif
  std::string r;
  for(unsigned char c : s)
  {
    if(isalnum(c)) r += (char)c;
    else { char b[8]; snprintf(b, sizeof b, "%%%02x", c); r += b; }
  }
  return r;
}
static std::string brief(const std::string& r)
{
#ifdef PAYLOAD_RAW
  return r;
#endif
  if(r.size() <= 60) return r;
  unsigned long long h = 1469598103934665603ULL; for(unsigned char c : r) { h ^= c; h *= 1099511628211ULL; }
  return r.substr(0, 12) + "." + std::to_string(r.size()) + "." + std::to_string(h);
}
static std::string canon_(messages::Datagram d)
{
  using T = messages::RawDatagramType;
  switch(d.GetType())
  {
    case T::Empty: return "e";
    case T::Value:
      try { return "s:" + printable(d.Get<std::string>()); } catch(exceptions::InvalidOperationException&) {}
      try { return "i:" + std::to_string(d.Get<int>()); } catch(exceptions::InvalidOperationException&) {}
      try { return std::string("b:") + (d.Get<bool>() ? "1" : "0"); } catch(exceptions::InvalidOperationException&) {}
      return "?";
    case T::List:
    {
      std::string s = "[";
      for(unsigned i = 0; i < d.GetCount(); ++i) s += (i ? "," : "") + canon_(d[i]);
      return s + "]";
    }
    case T::Dictionary:
    {
      std::string s = "{";
      for(const char* k : {"a", "b", "id", "x"}) if(d.KeyExists(k)) s += std::string(k) + "=" + canon_(d[std::string(k)]) + ";";
      return s + std::to_string(d.GetCount()) + "}";
    }
  }
  return "?";
}
static std::string canon(messages::Datagram d) { return brief(canon_(d)); }
static void deep(messages::Datagram d, int n, int v) { if(n == 0) d["id"] = v; else deep(d["a"], n - 1, v); }
static messages::Datagram payload(int v)
{
  messages::Datagram d;
  switch(v / 1000)
  {
    case 5: return d;                                                                        // nothing
    case 6: d = std::string(3000 + v % 7, 'q') + std::to_string(v); return d;                // long
    case 7: d.Add(std::make_shared<messages::RawDatagram>(v)); for(int i = 0; i < 20; ++i) d.Add(std::make_shared<messages::RawDatagram>(std::string("y"))); return d;
    case 8: deep(d["a"], 40, v); return d;
    case 9: d = std::string("\"\\\n\0 \xc3\xa4", 7) + std::to_string(v); return d;
  }
  switch(v % 4)
  {
    case 0: d["id"] = v; d["x"].Add(std::make_shared<messages::RawDatagram>(v)); d["x"].Add(std::make_shared<messages::RawDatagram>(std::string("y"))); break;
    case 1: d = std::string("m") + std::to_string(v); break;
    case 2: d["a"]["b"]["id"] = v; d["b"] = (v % 8 == 2); break;
    default: d = v; break;
  }
  return d;
}
static void mutate(messages::Datagram& d)
{
  using T = messages::RawDatagramType;
  if(d.GetType() == T::Dictionary)
  {
    if(d.KeyExists("id")) d["id"] = -1;
    if(d.KeyExists("x")) d["x"][0u] = std::string("changed");
    if(d.KeyExists("a")) { d["a"]["b"]["id"] = std::string("changed"); d["a"].Remove(std::string("b")); }
  }
  else if(d.GetType() == T::List) d[0u] = std::string("changed");
  else if(d.GetType() == T::Value) d = std::string("changed");
}
#endif

// Runs cases (one JSON array per line: operations) in a process of their own each and writes what they recorded, one JSON
// array of events per line.  If a case ends in any other way than by returning, its last event says so.
#ifndef CASE_H
#define CASE_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <json.h>

namespace cases
{
  static int fd = -1;
  static std::string pending;
  inline void flush() { size_t o = 0; while(o < pending.size()) { ssize_t n = write(fd, pending.data() + o, pending.size() - o); if(n <= 0) _exit(9); o += (size_t)n; } pending.clear(); }
  inline void emit(json_object* e) { pending += ","; pending += json_object_to_json_string_ext(e, JSON_C_TO_STRING_PLAIN | JSON_C_TO_STRING_NOSLASHESCAPE); flush(); }
  inline std::string str(json_object* o, const char* k) { json_object* v = nullptr; if(!json_object_object_get_ex(o, k, &v)) return ""; return std::string(json_object_get_string(v), (size_t)json_object_get_string_len(v)); }
  inline long num(json_object* o, const char* k, long d = 0) { json_object* v = nullptr; if(!json_object_object_get_ex(o, k, &v)) return d; return (long)json_object_get_int64(v); }
  inline json_object* get(json_object* o, const char* k) { json_object* v = nullptr; json_object_object_get_ex(o, k, &v); return v; }
  inline bool has(json_object* o, const char* k) { return json_object_object_get_ex(o, k, nullptr); }
  inline json_object* jstr(const std::string& s) { return json_object_new_string_len(s.data(), (int)s.size()); }
  inline void put(json_object* o, const char* k, json_object* v) { json_object_object_add(o, k, v); }
  inline std::string hex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for(unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
  inline std::string unhex(const std::string& s) { std::string r; for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return r; }

  inline json_object* parse(const std::string& line)
  {
    json_tokener* tok = json_tokener_new_ex(2000); json_object* p = json_tokener_parse_ex(tok, line.c_str(), (int)line.size()); json_tokener_free(tok);
    if(!p) { fprintf(stderr, "bad case %s\n", line.substr(0, 200).c_str()); _exit(7); }
    return p;
  }
  // main(argv: CASES OUT [SECONDS]); up to `batch` cases share a process as long as they end normally
  inline int run(int argc, char** argv, const std::function<void(json_object*)>& one, int batch = 1, bool quiet = true)
  {
    if(argc < 3) return 2;
    std::ifstream in(argv[1]); std::string line; int secs = argc > 3 ? atoi(argv[3]) : 30;
    std::vector<std::string> lines; while(std::getline(in, line)) lines.push_back(line);
    fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    volatile size_t* cur = (volatile size_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for(size_t i = 0; i < lines.size();)
    {
      size_t end = std::min(lines.size(), i + (size_t)batch); *cur = i;
      pid_t p = fork();
      if(p == 0)
      {
        if(quiet) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if(!getenv("CASE_STDERR")) dup2(nul, 2); }
        for(; i < end; ++i)
        {
          *cur = i; alarm((unsigned)secs);
          json_object* prog = parse(lines[i]);
          pending = std::string("[") + json_object_to_json_string_ext(json_object_array_get_idx(prog, 0), JSON_C_TO_STRING_PLAIN | JSON_C_TO_STRING_NOSLASHESCAPE); flush();
          one(prog);
          pending = "]\n"; flush(); json_object_put(prog);
        }
        _exit(0);
      }
      int st = 0; waitpid(p, &st, 0);
      if(WIFEXITED(st) && WEXITSTATUS(st) == 7) return 2;
      if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { pending = ",{\"op\":\"crash\",\"status\":" + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "}]\n"; flush(); i = *cur + 1; }
      else i = end;
    }
    printf("{\"cases\":%zu}\n", lines.size());
    return 0;
  }
}
#endif

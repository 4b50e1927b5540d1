#include "h.h"
#include <fcntl.h>
#include <sys/resource.h>
static std::map<std::string, PropFn>& Props() { static std::map<std::string, PropFn> m; return m; }
Reg::Reg(const char* name, PropFn fn) { Props()[name] = fn; }
static void OnCpu(int) {
  static const char m[] = "\nHARNESS: CPU limit of one case exceeded\n";
  (void)!write(2, m, sizeof m - 1); _exit(78);
}
int main(int argc, char** argv) {
  Ctx c;
  if (argc < 2) return 2;
  c.prop = argv[1];
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i]; auto v = [&] { return std::string(argv[++i]); };
    if (a == "--seed") c.seed = strtoull(argv[++i], 0, 10);
    else if (a == "--shard") c.shard = atoi(argv[++i]);
    else if (a == "--shards") c.nshards = atoi(argv[++i]);
    else if (a == "--cases") c.cases = atol(argv[++i]);
    else if (a == "--only") c.only = atol(argv[++i]);
    else if (a == "--start") c.start = atol(argv[++i]);
    else if (a == "--tier") c.tier = v();
    else if (a == "--scratch") c.scratch = v();
    else if (a == "--cpu") c.cpu_limit = atoi(argv[++i]);
    else c.args.push_back(a);
  }
  auto it = Props().find(c.prop);
  if (it == Props().end()) { fprintf(stderr, "no such property\n"); return 2; }
  std::string pp = c.scratch + "/shard_" + std::to_string(c.shard) + ".progress";
  int fd = open(pp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) {
    c.pr = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  if (!c.pr || c.pr == MAP_FAILED) { perror("progress"); return 3; }
  c.pr->idx = -1; c.pr->done = 0;
  signal(SIGPROF, OnCpu);
  it->second(c);
  itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_PROF, &t, nullptr);
  std::string s = "{\"evaluations\": " + std::to_string(c.evaluations) + ", \"events\": {";
  bool first = true;
  for (auto& e : c.events) { s += (first ? "" : ", ") + JsonStr(e.first) + ": " + std::to_string(e.second); first = false; }
  s += "}, \"samples\": ["; first = true;
  for (auto& e : c.samples) { s += (first ? "" : ", ") + JsonStr(e); first = false; }
  s += "], \"distinct\": ["; first = true;
  for (auto& e : c.distinct) { s += (first ? "\"" : ",\"") + std::to_string(e) + "\""; first = false; }
  s += "]}\n";
  FILE* f = fopen((c.scratch + "/shard_" + std::to_string(c.shard) + ".stats").c_str(), "w");
  if (!f) return 3;
  fputs(s.c_str(), f); fclose(f);
  return 0;
}

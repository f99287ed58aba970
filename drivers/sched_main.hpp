// Explores schedules of a scenario: random walks, PCT and depth first search
// with a bound on preemptions; prints every distinct recorded trace once.
#pragma once
#include "sched.hpp"
#include "vdrv.hpp"
#include <random>
#include <set>

namespace vs {
using vd::J;

struct Explorer {
  Shared* sh = makeShared();
  std::map<std::string, std::pair<long, std::string>> traces;   // text -> (count, first schedule)
  long runs = 0;

  void keep(const std::string& how) {
    runs++;
    std::string t(sh->text, sh->tlen);
    auto i = traces.find(t);
    if (i == traces.end()) traces[t] = {1, how}; else i->second.first++;
  }
  static std::string hex(const std::vector<unsigned char>& p) { std::string s; char b[4]; for (auto c : p) { snprintf(b, 4, "%x.", c); s += b; } return s; }

  void explore(const J& req, const std::function<void()>& body) {
    Config c;
    const std::string mode = req["mode"].str();
    long n = req["runs"].num();
    long seed = req["seed"].num();
    if (req.has("accesses")) c.accesses = req["accesses"].boolean();
    if (req.has("tracked")) c.trackedOnly = req["tracked"].boolean();
    if (req.has("spurious")) c.spurious = req["spurious"].boolean();
    if (mode == "random") {
      static const int pm[] = {5, 20, 50, 100, 300, 600};
      for (long i = 0; i < n; i++) {
        c.mode = Config::RANDOM; c.seed = seed * 1000003 + i; c.switchPerMille = pm[i % 6];
        runForked(c, sh, body); keep("random " + std::to_string(c.seed) + " " + std::to_string(c.switchPerMille));
      }
    } else if (mode == "pct") {
      c.mode = Config::FIRST; runForked(c, sh, body); keep("first");
      long est = sh->nchoice + 10;
      for (long i = 0; i < n; i++) {
        c.mode = Config::PCT; c.seed = seed * 1000003 + i; c.depth = i % 5; c.steps = est;
        runForked(c, sh, body); keep("pct " + std::to_string(c.seed) + " " + std::to_string(c.depth));
      }
    } else if (mode == "dfs") {
      int bound = req["bound"].num();
      std::mt19937 g(seed);
      struct Item { std::vector<unsigned char> p; int pre; };
      std::vector<Item> todo(1);
      todo[0].pre = 0;
      long maxTodo = 400000;
      while (!todo.empty() && n-- > 0) {
        // a random item, so that a truncated search is spread over the tree
        size_t k = g() % todo.size();
        Item it = todo[k]; todo[k] = std::move(todo.back()); todo.pop_back();
        c.mode = Config::PREFIX; c.prefix = it.p;
        runForked(c, sh, body); keep("dfs " + hex(it.p));
        long m = sh->nchoice;
        std::vector<unsigned char> taken(sh->c, sh->c + m);
        for (long i = it.p.size(); i < m && (long)todo.size() < maxTodo; i++) {
          for (int a = 0; a < sh->n[i]; a++) {
            if (a == taken[i]) continue;
            int pre = it.pre + (sh->cur[i] != 255 ? 1 : 0);
            if (pre > bound) continue;
            Item x; x.p.assign(taken.begin(), taken.begin() + i); x.p.push_back(a); x.pre = pre;
            todo.push_back(std::move(x));
          }
        }
      }
      printf("DFS %s\n", todo.empty() ? "complete" : "truncated");
    } else if (mode == "replay") {
      c.mode = Config::PREFIX;
      runForked(c, sh, body); keep("replay");
    }
  }
};

// Sc: constructed from the scenario (J), has void body().
template <class Sc>
int runSchedules(int argc, char** argv) {
  if (argc < 2) return 96;
  std::ifstream in(argv[1]);
  std::string line;
  long n = 0;
  while (std::getline(in, line)) {
    J req = J::parse(line);
    Explorer e;
    e.explore(req, [&] { Sc sc(req["sc"]); sc.body(); });
    for (auto& t : e.traces) {
      std::string ev = t.first;
      for (auto& c : ev) if (c == '\n') c = ',';
      if (!ev.empty()) ev.pop_back();
      printf("T %ld %ld|%s|[%s]\n", n, t.second.first, t.second.second.c_str(), ev.c_str());
    }
    printf("RUNS %ld\n", e.runs);
    n++;
  }
  printf("DONE\n");
  return 0;
}
}  // namespace vs

// Runs client programs on sm::JobQueue under the deterministic scheduler (spec/JobQueue.tla).
//
// Scenario: {"n": workers, "threads": [[op...]...], "final": [op...], "jobs": {id: {...}}}
// op: {"op": "work"|"fut"|"futs"|"futv", "j": id} | {"op": "wait"|"empty"|"stop"|"join"|"destroy"} | {"op": "get"|"ready", "j": id}
// job: {"throws": bool, "after": id (waits until that job has started), "sub": [op...]}
#include "sched_main.hpp"
#include <memory>
#include <thread>
#include <mutex>
#include <future>
#include <sm/boost/JobQueue.hpp>
using vd::J;

struct JobError : std::runtime_error { int code; JobError(int c) : std::runtime_error("job " + std::to_string(c)), code(c) {} };

struct Sc {
  const J& s;
  explicit Sc(const J& s) : s(s) {}
  void* mem = nullptr;
  sm::JobQueue* q = nullptr;
  bool alive = true;
  enum { MAXJ = 64 };
  boost::unique_future<int> fi[MAXJ];
  boost::unique_future<std::string> fs[MAXJ];
  boost::unique_future<void> fv[MAXJ];
  char kind[MAXJ] = {0};        // which of the three job j uses
  int started[MAXJ] = {0};

  static void ev(int t, const char* k, const std::string& op, int j, const J& v = J("")) {
    J e = J::obj();
    e.set("t", t).set("k", k).set("op", op).set("j", j).set("v", v);
    vs::log(e.dump());
  }
  const J& job(int j) { return s["jobs"][std::to_string(j)]; }

  void runJob(int j) {
    vs::Quiet q_;
    int t = 100 + vs::self();
    started[j]++;
    ev(t, "start", "job", j);
    const J& d = job(j);
    vs::point();
    if (d.has("after")) { int a = d["after"].num(); vs::waitFor([&] { return started[a] > 0; }); }
    if (d.has("sub")) for (auto& o : d["sub"].a) op(t, o);
    vs::point();
    ev(t, "end", "job", j);
    if (d.has("throws") && d["throws"].boolean()) throw JobError(j);
  }
  int runI(int j) { runJob(j); return 1000 + j; }
  std::string runS(int j, std::string bound) { runJob(j); return "result " + bound; }

  template <class F> std::string outcome(const F& f) {
    try { return f(); }
    catch (const JobError& e) { return std::string("JobError ") + std::to_string(e.code) + " " + e.what(); }
    catch (const boost::broken_promise&) { return "broken"; }
    catch (const boost::future_uninitialized&) { return "uninitialized"; }
    catch (const std::exception& e) { return std::string("other ") + e.what(); }
    catch (...) { return "unknown"; }
  }

  void op(int t, const J& o) {
    const std::string n = o["op"].str();
    int j = o.has("j") ? (int)o["j"].num() : 0;
    J v = "";
    ev(t, "call", n, j);
    {
      vs::Armed armed;
      if (n == "work") q->scheduleWork(boost::bind(&Sc::runJob, this, j));
      else if (n == "fut") { kind[j] = 'i'; boost::function<int()> f = boost::bind(&Sc::runI, this, j); q->scheduleFuture<int>(f, fi[j]); }
      else if (n == "futs") { kind[j] = 's'; boost::function<std::string()> f = boost::bind(&Sc::runS, this, j, std::to_string(j)); q->scheduleFuture<std::string>(f, fs[j]); }
      else if (n == "futv") { kind[j] = 'v'; boost::function<void()> f = boost::bind(&Sc::runJob, this, j); q->scheduleFuture<void>(f, fv[j]); }
      else if (n == "wait") q->waitForEmptyQueue();
      else if (n == "empty") v = J(q->empty() ? "true" : "false");
      else if (n == "stop") q->stop();
      else if (n == "join") q->join();
      else if (n == "destroy") { q->~JobQueue(); alive = false; memset(mem, 0xdd, sizeof(sm::JobQueue)); vs::dead(mem, sizeof(sm::JobQueue)); }
      else if (n == "ready") v = J((kind[j] == 'i' ? fi[j].is_ready() : kind[j] == 's' ? fs[j].is_ready() : fv[j].is_ready()) ? "true" : "false");
      else if (n == "get") v = J(outcome([&]() -> std::string {
        if (kind[j] == 'i') return std::to_string(fi[j].get());
        if (kind[j] == 's') return fs[j].get();
        fv[j].get(); return "void"; }));
      else _exit(97);
    }
    ev(t, "ret", n, j, v);
  }

  void body() {
    mem = aligned_alloc(64, (sizeof(sm::JobQueue) + 63) / 64 * 64);
    q = new (mem) sm::JobQueue;
    vs::track(mem, sizeof(sm::JobQueue));
    if (s["n"].num() > 0) { ev(0, "call", "start", 0); { vs::Armed a; q->start((int)s["n"].num()); } ev(0, "ret", "start", 0); }
    std::vector<pthread_t> th(s["threads"].size());
    struct Arg { Sc* sc; int i; };
    std::vector<Arg> args;
    for (size_t i = 0; i < th.size(); i++) args.push_back(Arg{this, (int)i});
    for (size_t i = 0; i < th.size(); i++)
      pthread_create(&th[i], nullptr, [](void* p) -> void* {
        vs::setQuiet(true);
        Arg* a = (Arg*)p;
        for (auto& o : a->sc->s["threads"][a->i].a) a->sc->op(a->i + 1, o);
        return nullptr;
      }, &args[i]);
    for (auto& x : th) pthread_join(x, nullptr);
    for (auto& o : s["final"].a) op(0, o);
    // what is left of the workers runs to its end
    for (int i = 0; i < 50; i++) vs::point();
    ev(0, "end", "program", 0);
  }
};
int main(int argc, char** argv) { return vs::runSchedules<Sc>(argc, argv); }

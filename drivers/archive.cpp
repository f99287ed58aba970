// Executes histories on sm::MatrixArchive (see spec/Archive.tla).
#include "vdrv.hpp"
#include <sm/MatrixArchive.hpp>
using vd::J;

static std::string rd(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream s; s << i.rdbuf();
  return s.str();
}
static void wr(const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(b.data(), b.size()); }

static Eigen::MatrixXd mat(const J& e) {
  Eigen::MatrixXd m((int)e["rr"].num(), (int)e["c"].num());
  std::string b = e["d"].bytes();
  memcpy(m.data(), b.data(), b.size());
  return m;
}
static J matBytes(const Eigen::MatrixXd& m) { if (m.size() > 10000) return J::arr().push(-1); return J::fromBytes(std::string((const char*)m.data(), 8 * m.size())); }
static J gm(const Eigen::MatrixXd& m) { return J::obj().set("k", "gm").set("gr", (long long)m.rows()).set("gc", (long long)m.cols()).set("v", matBytes(m)); }

struct D {
  sm::MatrixArchive ar[2];
  D() { for (int f = 1; f <= 2; f++) unlink(file(f).c_str()); }
  static std::string file(int f) { return f == 3 ? "nodir/x.ama" : "f" + std::to_string(f) + ".ama"; }

  J obs(const J& core, int a) {
    J r = core;
    const sm::MatrixArchive& A = ar[a];
    J m = J::arr(), s = J::arr(), sz = J::arr();
    for (auto it = A.begin(); it != A.end(); ++it)
      m.push(J::arr().push(J::fromBytes(it->first)).push((long long)it->second.rows()).push((long long)it->second.cols()).push(matBytes(it->second)));
    for (auto& p : A.getStrings()) s.push(J::arr().push(J::fromBytes(p.first)).push(J::fromBytes(p.second)));
    sz.push((long long)A.size()).push((long long)A.sizeMatrices()).push((long long)A.sizeStrings());
    return r.set("m", m).set("s", s).set("sz", sz);
  }

  J core(const J& e) {
    sm::MatrixArchive& A = ar[e["a"].num() - 1];
    const sm::MatrixArchive& C = A;
    const std::string op = e["op"].str();
    const std::string n = e.has("n") ? e["n"].bytes() : "";
    try {
      if (op == "setMatrix") { A.setMatrix(n, mat(e)); return vd::rOk(); }
      if (op == "setMatrixXd") { A.setMatrixXd(n, mat(e)); return vd::rOk(); }
      if (op == "setVector") { A.setVector(n, mat(e)); return vd::rOk(); }
      if (op == "setVectorXd") { Eigen::VectorXd v = mat(e).col(0); A.setVectorXd(n, v); return vd::rOk(); }
      if (op == "setScalar") { A.setScalar(n, mat(e)(0, 0)); return vd::rOk(); }
      if (op == "setString") { A.setString(n, e["d"].bytes()); return vd::rOk(); }
      if (op == "createMatrix") {
        Eigen::MatrixXd& m = A.createMatrix(n, (int)e["rr"].num(), (int)e["c"].num(), e["ow"].boolean());
        Eigen::MatrixXd v = mat(e);
        if (m.rows() != v.rows() || m.cols() != v.cols()) return vd::rExc("shape");
        m = v;
        return vd::rOk();
      }
      if (op == "getMatrix") {
        Eigen::MatrixXd a, b, c;
        a = C.getMatrix(n); C.getMatrix(n, b); c = A.getMatrix(n);
        if (matBytes(a).dump() != matBytes(b).dump() || matBytes(a).dump() != matBytes(c).dump()) return vd::rExc("variants differ");
        return gm(a);
      }
      if (op == "getVector") { Eigen::VectorXd v; C.getVector(n, v); return gm(v); }
      if (op == "getScalar") {
        double x = C.getScalar(n), y; C.getScalar(n, y);
        if (memcmp(&x, &y, 8)) return vd::rExc("variants differ");
        Eigen::MatrixXd m(1, 1); m(0, 0) = x; return gm(m);
      }
      if (op == "getString") {
        std::string a = C.getString(n), b, c = A.getString(n); C.getString(n, b);
        if (a != b || a != c) return vd::rExc("variants differ");
        return J::obj().set("k", "gs").set("v", J::fromBytes(a));
      }
      if (op == "find") { return vd::rBool(C.find(n) != C.end()); }
      if (op == "clear") { A.clear(); return vd::rOk(); }
      if (op == "clearName") { A.clear(n); return vd::rOk(); }
      std::string f = file((int)e["f"].num());
      std::set<std::string> names;
      if (e.has("names")) for (auto& x : e["names"].a) names.insert(x.bytes());
      const std::string via = e.has("via") ? e["via"].str() : "path";
      J fr = J::obj().set("k", "file");
      if (op == "save") {
        if (via == "stream") {
          std::ostringstream os; os.fill('0'); os.setf(std::ios::hex | std::ios::boolalpha); C.save(os, names); wr(f, os.str());   // whatever the stream was used for before
        } else if (names.empty() && via == "str") C.save(f);
        else if (names.empty() && via == "path1") C.save(boost::filesystem::path(f));
        else C.save(boost::filesystem::path(f), names);
        return fr.set("fb", J::fromBytes(rd(f)));
      }
      if (op == "append") {
        if (names.empty() && via == "str") C.append(f);
        else if (names.empty() && via == "path1") C.append(boost::filesystem::path(f));
        else C.append(boost::filesystem::path(f), names);
        return fr.set("fb", J::fromBytes(rd(f)));
      }
      if (op == "load") {
        if (names.empty() && via == "str") A.load(f);
        else if (names.empty() && via == "path1") A.load(boost::filesystem::path(f));
        else A.load(boost::filesystem::path(f), names);
        return vd::rOk();
      }
      if (op == "trunc") {
        std::string b = rd(f);
        size_t k = e["kk"].num();
        if (k < b.size()) { b.resize(k); wr(f, b); }
        return fr.set("fb", J::fromBytes(b));
      }
      if (op == "poke") {
        std::string b = rd(f);
        size_t k = e["kk"].num();
        if (k >= 1 && k <= b.size()) { b[k - 1] = (char)e["b"].num(); wr(f, b); }
        return fr.set("fb", J::fromBytes(b));
      }
      if (op == "remove") { unlink(f.c_str()); return vd::rOk(); }
      std::cerr << "unknown op " << op << std::endl; _exit(97);
    } catch (const sm::MatrixArchiveException&) {
      return vd::rExc("MatrixArchiveException");
    }
  }
  J step(const J& e) { return obs(core(e), (int)e["a"].num() - 1); }
};
int main(int c, char** v) { return vd::run<D>(c, v); }

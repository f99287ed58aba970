// Executes calls of sm::HashId and of types defined with SM_DEFINE_ID (spec/Ids.tla).
#include "vdrv.hpp"
#include <set>
#include <sstream>
#include <unordered_set>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/unordered_set.hpp>
#include <sm/Id.hpp>
#include <sm/hash_id.hpp>
using vd::J;
using sm::HashId;

namespace client {
SM_DEFINE_ID(ThingId);
class NodeId : public HashId { public: NodeId() {} NodeId(const HashId& h) : HashId(h) {} };
}
SM_DEFINE_ID_HASH(client::ThingId);
SM_DEFINE_HASHID_HASH(client::NodeId);
using client::ThingId;

static J nib(uint64_t v) { J a = J::arr(); for (int i = 15; i >= 0; i--) a.push((int)(v >> (4 * i) & 15)); return a; }
static uint64_t num(const J& a) { uint64_t v = 0; for (auto& x : a.a) v = v << 4 | (uint64_t)x.i; return v; }
static J codes(const std::string& s) { return J::fromBytes(s); }
static std::string hx(size_t v) { char b[32]; snprintf(b, sizeof b, "%zx", v); return b; }

template <class O, class I>
static void through(const ThingId& a, ThingId& b) {
  std::stringstream s;
  { O o(s); o << boost::serialization::make_nvp("id", a); }
  { I i(s); i >> boost::serialization::make_nvp("id", b); }
}

struct D {
  enum { N = 4 };
  HashId h[N];
  ThingId d[N];
  std::set<HashId> hset; std::unordered_set<HashId> huns;
  std::unordered_set<client::NodeId> hnode;
  std::set<ThingId> dset; std::unordered_set<ThingId> duns; boost::unordered_set<ThingId> dbst;

  static J two(bool a, bool b) { return J::arr().push(a).push(b); }
  static J three(bool a, bool b, bool c) { return J::arr().push(a).push(b).push(c); }

  J step(const J& e) {
    const std::string op = e["op"].str();
    int i = e.has("i") ? e["i"].num() - 1 : 0, j = e.has("j") ? e["j"].num() - 1 : 0;
    bool alt = e.has("alt") && e["alt"].boolean();
    if (op == "hdef") { h[i] = HashId(); return vd::rOk(); }
    if (op == "hinv") { h[i].setInvalid(); return vd::rOk(); }
    if (op == "hfrom") return vd::rBool(h[i].fromHexString(e["s"].bytes()));
    if (op == "hcopy") { if (alt) { HashId c(h[j]); h[i] = c; } else h[i] = h[j]; return vd::rOk(); }
    if (op == "hwords") {
      uint64_t w[2]; h[j].toUint64(w);
      if (alt) h[i] = HashId(w); else h[i].fromUint64(w);
      return vd::rOk();
    }
    if (op == "hrand") { if (alt) h[i] = HashId::random(); else h[i].randomize(); return J::obj().set("k", "hex").set("s", codes(h[i].hexString())); }
    if (op == "hmany") {          // how many of n random ids are distinct and valid; bits that never vary
      const long n = e["n"].num();
      std::set<std::string> t; uint64_t lo[2] = {~0ULL, ~0ULL}, hi[2] = {0, 0}; long valid = 0;
      for (long k = 0; k < n; k++) {
        HashId x = HashId::random(); uint64_t w[2]; x.toUint64(w);
        for (int q = 0; q < 2; q++) { lo[q] &= w[q]; hi[q] |= w[q]; }
        valid += x.isValid(); t.insert(x.hexString());
      }
      J fixed = J::arr();
      for (int b = 0; b < 128; b++) if (((lo[b / 64] >> (b % 64)) & 1) == ((hi[b / 64] >> (b % 64)) & 1)) fixed.push(b);
      return J::obj().set("k", "many").set("distinct", (long long)t.size()).set("valid", (long long)valid).set("fixed", fixed);
    }
    if (op == "hobs") {
      J hex = J::arr(), out = J::arr(), valid = J::arr(), cmp = J::arr(), hash = J::arr();
      for (int a = 0; a < N; a++) {
        const HashId& x = h[a];
        std::ostringstream s; s << x;
        hex.push(codes(x.hexString())); out.push(codes(s.str())); valid.push(x.isValid());
        hash.push(hx(std::hash<HashId>()(x)) + "/" + hx(std::hash<client::NodeId>()(client::NodeId(x))) + "/" + hx(x.hashToSizeTFast()));
        J row = J::arr();
        for (int b = 0; b < N; b++) { const HashId& y = h[b]; row.push(J::obj().set("eq", x == y).set("ne", x != y).set("lt", x < y).set("gt", x > y)); }
        cmp.push(row);
      }
      return J::obj().set("k", "obs").set("hex", hex).set("out", out).set("valid", valid).set("cmp", cmp).set("hash", hash);
    }
    if (op == "hins") { bool a = hset.insert(h[i]).second, b = huns.insert(h[i]).second; hnode.insert(h[i]); return J::obj().set("k", "ins").set("n", two(a, b)).set("size", J::arr().push(hset.size()).push(huns.size())); }
    if (op == "hera") { bool a = hset.erase(h[i]) == 1, b = huns.erase(h[i]) == 1; hnode.erase(h[i]); return J::obj().set("k", "ins").set("n", two(a, b)).set("size", J::arr().push(hset.size()).push(hnode.size())); }
    if (op == "hhas") return J::obj().set("k", "has").set("n", two(hset.count(h[i]) == 1, huns.count(h[i]) == 1 && hnode.count(h[i]) == 1));

    if (op == "dset") { d[i] = ThingId(num(e["v"])); return vd::rOk(); }
    if (op == "ddef") { d[i] = alt ? ThingId(sm::Id()) : ThingId(); return vd::rOk(); }
    if (op == "dclear") { d[i].clear(); return vd::rOk(); }
    if (op == "dcopy") { if (alt) { ThingId c(d[j]); d[i] = c; } else d[i] = d[j]; return vd::rOk(); }
    if (op == "dconv") { sm::Id x(d[j].getId()); d[i] = ThingId(x); return vd::rOk(); }
    if (op == "dswap") { d[i].swap(d[j]); return vd::rOk(); }
    if (op == "dpre") { ++d[i]; return J::obj().set("k", "val").set("v", nib((alt ? d[i].getId() : d[i].value()))); }
    if (op == "dpost") { sm::Id x = d[i]++; return J::obj().set("k", "val").set("v", nib(x.getId())); }
    if (op == "dser") {
      ThingId b(77);
      const std::string f = e["f"].str();
      if (f == "text") through<boost::archive::text_oarchive, boost::archive::text_iarchive>(d[j], b);
      else if (f == "xml") through<boost::archive::xml_oarchive, boost::archive::xml_iarchive>(d[j], b);
      else through<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(d[j], b);
      d[i] = b;
      return vd::rOk();
    }
    if (op == "drand") { d[i].setRandom(); return J::obj().set("k", "val").set("v", nib(d[i].value())); }
    if (op == "dobs") {
      J get = J::arr(), val = J::arr(), out = J::arr(), set = J::arr(), cmp = J::arr(), hash = J::arr(), same = J::arr();
      for (int a = 0; a < N; a++) {
        const ThingId& x = d[a];
        std::ostringstream s; s << x;
        get.push(nib(x.getId())); val.push(nib(x.value())); set.push(x.isSet());
        out.push(nib(strtoull(s.str().c_str(), 0, 10)));
        hash.push(hx(std::hash<ThingId>()(x)) + "/" + hx(boost::hash<ThingId>()(x)));
        J row = J::arr(), sr = J::arr();
        for (int b = 0; b < N; b++) {
          const ThingId& y = d[b];
          row.push(J::obj().set("eq", x == y).set("ne", x != y).set("lt", x < y).set("gt", x > y).set("le", x <= y).set("ge", x >= y));
          sr.push(d[a].isBinaryEqual(y));
        }
        cmp.push(row); same.push(sr);
      }
      return J::obj().set("k", "obs").set("get", get).set("val", val).set("out", out).set("set", set).set("cmp", cmp).set("hash", hash).set("same", same);
    }
    if (op == "dins") { bool a = dset.insert(d[i]).second, b = duns.insert(d[i]).second, c = dbst.insert(d[i]).second; return J::obj().set("k", "ins").set("n", three(a, b, c)).set("size", J::arr().push(dset.size()).push(duns.size()).push(dbst.size())); }
    if (op == "dera") { bool a = dset.erase(d[i]) == 1, b = duns.erase(d[i]) == 1, c = dbst.erase(d[i]) == 1; return J::obj().set("k", "ins").set("n", three(a, b, c)).set("size", J::arr().push(dset.size()).push(duns.size()).push(dbst.size())); }
    if (op == "dhas") return J::obj().set("k", "has").set("n", three(dset.count(d[i]) == 1, duns.count(d[i]) == 1, dbst.count(d[i]) == 1));
    return vd::rExc("bad op");
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }

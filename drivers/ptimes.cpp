// Executes the conversion of Boost times (spec/PTime.tla).
#include "vdrv.hpp"
#include <boost/date_time/posix_time/posix_time.hpp>
#include <sm/boost/ptime.hpp>
using vd::J;
timeval elsewhere(boost::posix_time::ptime t);
struct D {
  J step(const J& e) {
    namespace g = boost::gregorian; namespace p = boost::posix_time;
    p::ptime t(g::date(e["y"].num(), e["m"].num(), e["d"].num()), p::seconds(e["s"].num()) + p::microseconds(e["us"].num()));
    timeval v = e["alt"].boolean() ? elsewhere(t) : sm::ptimeToTimeval(t);
    long long s = v.tv_sec, day = s / 86400, r = s % 86400; if (r < 0) { r += 86400; --day; }
    if (day < -2000000000LL || day > 2000000000LL || v.tv_usec < -2000000000LL || v.tv_usec > 2000000000LL) return J::obj().set("k", "far");
    return J::obj().set("k", "tv").set("day", day).set("s", r).set("us", (long long)v.tv_usec);
  }
};
int main(int argc, char** argv) { return vd::run<D>(argc, argv); }

#include <sm/boost/ptime.hpp>
timeval elsewhere(boost::posix_time::ptime t) { return sm::ptimeToTimeval(t); }

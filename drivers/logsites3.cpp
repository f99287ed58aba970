#include <functional>
#include "logsites.hpp"
SITES(TRACE)
SITES(FINE)

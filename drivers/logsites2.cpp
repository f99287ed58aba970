#include <functional>
#include "logsites.hpp"
SITES(VERBOSE)
SITES(FINER)

#include <functional>
#include "logsites.hpp"
SITES(ALL)
SITES(FINEST)

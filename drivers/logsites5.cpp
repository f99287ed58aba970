#include <functional>
#include "logsites.hpp"
SITES(WARN)
SITES(ERROR)
SITES(FATAL)

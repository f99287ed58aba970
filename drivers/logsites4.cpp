#include <functional>
#include "logsites.hpp"
SITES(DEBUG)
SITES(INFO)

#define TU 3
#include "link_first.hpp"
#include LK_3
#include "link.hpp"

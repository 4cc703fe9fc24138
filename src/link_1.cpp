#define TU 1
#include "link_first.hpp"
#include LK_1
#include "link.hpp"

#define TU 2
#include "link_first.hpp"
#include LK_2
#include "link.hpp"

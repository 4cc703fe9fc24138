#define TU 4
#include "link_first.hpp"
#include LK_4
#include "link.hpp"

#ifndef VERIF_SHIM_INVOKE_SWAP
#define VERIF_SHIM_INVOKE_SWAP
#include <boost/core/swap.hpp>
namespace boost { namespace core {
template<class T> inline void invoke_swap(T &l, T &r) { ::boost::swap(l, r); }
} }
#endif

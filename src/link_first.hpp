// the public header a unit includes before any other: it has to stand on its own
#if LK_SET == 1
#define LK_1 <boost/signals2/connection.hpp>
#define LK_2 <boost/signals2/slot.hpp>
#define LK_3 <boost/signals2/signal.hpp>
#define LK_4 <boost/signals2/deconstruct.hpp>
#elif LK_SET == 2
#define LK_1 <boost/signals2/shared_connection_block.hpp>
#define LK_2 <boost/signals2/trackable.hpp>
#define LK_3 <boost/signals2/signal_type.hpp>
#define LK_4 <boost/signals2/deconstruct_ptr.hpp>
#else
#define LK_1 <boost/signals2/optional_last_value.hpp>
#define LK_2 <boost/signals2/mutex.hpp>
#define LK_3 <boost/signals2/slot_base.hpp>
#define LK_4 <boost/signals2/last_value.hpp>
#endif

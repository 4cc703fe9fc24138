From 1e410181a8492935278431ddffe6046f71205ce8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 01/19] fix: set_combiner must not let a running invocation's
 slot list or combiner be modified

set_combiner() during an invocation made a new invocation_state which shared
the connection list of the running one, so the list was then considered
unshared and modified in place while being iterated. Likewise the combiner
shared with a copied invocation_state was assigned to while in use.
---
 .../boost/signals2/detail/signal_template.hpp | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..ebe4c33 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -308,9 +308,16 @@ namespace boost
         {
           unique_lock<mutex_type> lock(*_mutex);
           if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
-          else
-            _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+          {
+            _shared_state->reset_combiner(combiner_arg);
+          }else
+          {
+            /* The connection list must not be shared with the invocation_state
+            which is currently in use, since that would allow it to be modified
+            in place while it is being read. */
+            _shared_state = boost::make_shared<invocation_state>(_shared_state->connection_bodies(), combiner_arg);
+            _garbage_collector_it = _shared_state->connection_bodies().end();
+          }
         }
       private:
         typedef Mutex mutex_type;
@@ -391,14 +398,16 @@ namespace boost
             _connection_bodies(new connection_list_type(connections_in)),
             _combiner(other._combiner)
           {}
-          invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
-            _combiner(new combiner_type(combiner_in))
-          {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
+          // replaces (rather than assigns to) the combiner, since it may be shared with
+          // another invocation_state which is currently in use
+          void reset_combiner(const combiner_type &combiner_in)
+          {
+            _combiner.reset(new combiner_type(combiner_in));
+          }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From 5f7100a5911cc4d9505ff7a9e4cb7e89ca6f2250 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 02/19] fix: connection::blocked() is true for a disconnected
 slot and locks the connection

It returned false for a slot which was disconnected but not yet removed from
the signal's slot list, and read the weak_ptr to the blocker without holding
the mutex get_blocker() assigns it under.
---
 include/boost/signals2/connection.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..ec3d18e 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -89,13 +89,15 @@ namespace boost
           }
           return blocker;
         }
-        bool blocked() const
+        bool blocked()
         {
-          return !_weak_blocker.expired();
+          if(connected() == false) return true;
+          unique_lock<connection_body_base> local_lock(*this);
+          return nolock_nograb_blocked();
         }
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || !_weak_blocker.expired();
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
-- 
2.43.0


From 1eafa27bf8c9780f8843635780ec21aba20acbd3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 03/19] fix: don't lock tracked objects in connected() while
 holding the mutex

connection::connected(), signal::num_slots() and signal::empty() took
temporary shared ownership of the tracked objects and dropped it with the
connection's mutex locked, so a tracked object whose last other owner went
away meanwhile was destroyed (running user code) under the mutex.
---
 include/boost/signals2/connection.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index ec3d18e..e979be0 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -152,13 +152,15 @@ namespace boost
         virtual bool connected() const
         {
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          // Don't lock the tracked objects here, we could end up holding the last
+          // reference to one and destroying it while we hold the mutex.
+          disconnect_expired_slot(local_lock);
           return nolock_nograb_connected();
         }
         const GroupKey& group_key() const {return _group_key;}
         void set_group_key(const GroupKey &key) {_group_key = key;}
         template<typename M>
-        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg)
+        void disconnect_expired_slot(garbage_collecting_lock<M> &lock_arg) const
         {
           if(!m_slot) return;
           bool expired = slot().expired();
-- 
2.43.0


From 6807caa3786147d569ce2a099d0b4239b4f41139 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 04/19] fix: connect() must leave the slot unconnected if
 inserting its group throws

A throwing group comparator or group copy, or bad_alloc, after the slot was put
in the slot list left it connected, and could leave a group without its entry in
the group map.
---
 include/boost/signals2/detail/slot_groups.hpp | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..d8e374b 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -11,6 +11,7 @@
 #ifndef BOOST_SIGNALS2_SLOT_GROUPS_HPP
 #define BOOST_SIGNALS2_SLOT_GROUPS_HPP
 
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/signals2/connection.hpp>
 #include <boost/optional.hpp>
 #include <list>
@@ -181,20 +182,30 @@ namespace boost {
         }
         void m_insert(const map_iterator &map_it, const group_key_type &key, const ValueType &value)
         {
-          iterator list_it = get_list_iterator(map_it);
-          iterator new_it = _list.insert(list_it, value);
-          if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
-          {
-            _group_map.erase(map_it);
-          }
+          // Look up the group before modifying anything, since key comparisons might throw.
           map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+          const bool group_exists = lower_bound_it != _group_map.end() &&
+            weakly_equivalent(lower_bound_it->first, key);
+          iterator new_it = _list.insert(get_list_iterator(map_it), value);
+          if(group_exists)
+          {
+            // new_it is the first list item in the group if it was inserted before the previous first one
+            if(map_it == lower_bound_it) lower_bound_it->second = new_it;
+          }else
           {
-            /* doing the following instead of just
-              _group_map[key] = new_it;
-              to avoid bogus error when enabling checked iterators with g++ */
-            _group_map.insert(typename map_type::value_type(key, new_it));
+            BOOST_TRY
+            {
+              /* doing the following instead of just
+                _group_map[key] = new_it;
+                to avoid bogus error when enabling checked iterators with g++ */
+              _group_map.insert(typename map_type::value_type(key, new_it));
+            }
+            BOOST_CATCH(...)
+            {
+              _list.erase(new_it);
+              BOOST_RETHROW
+            }
+            BOOST_CATCH_END
           }
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
-- 
2.43.0


From 537046d60cd181aa8da05754cfd7931ece862898 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 05/19] fix: don't leave a dangling garbage collector iterator
 when cleanup throws

If the group comparator (or an allocation) threw while disconnected slots were
being removed, the iterator where the next cleanup starts could refer to an
already removed list element.
---
 include/boost/signals2/detail/signal_template.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index ebe4c33..9bfc754 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -449,6 +449,8 @@ namespace boost
           BOOST_ASSERT(_shared_state.unique());
           typename connection_list_type::iterator it;
           unsigned i;
+          // make sure we don't leave an invalid iterator behind if an exception is thrown below
+          _garbage_collector_it = _shared_state->connection_bodies().end();
           for(it = begin, i = 0;
             it != _shared_state->connection_bodies().end() && (count == 0 || i < count);
             ++i)
-- 
2.43.0


From 7d1f51145807a0935d816bfff30d1c1bf7ecc09f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 06/19] fix: don't terminate if the cleanup at the end of an
 invocation throws

The cleanup copies the slot list, which can throw bad_alloc (or whatever copying
or comparing groups throws), in a destructor.
---
 include/boost/signals2/detail/signal_template.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 9bfc754..d6fd747 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -432,7 +432,16 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...)
+              {
+                // The cleanup is only an optimization, so it must not
+                // cause an exception to leave this destructor.
+              }
+              BOOST_CATCH_END
             }
           }
         private:
-- 
2.43.0


From ff5e0d3f0bf5ea3a9dae49f14660922833420456 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 07/19] fix: don't access the signal after a slot has destroyed
 it

A signal may be destroyed while it is in a calling sequence, but the cleanup
done at the end of the invocation used the destroyed signal when it had come
across more disconnected than connected slots.
---
 include/boost/signals2/detail/signal_template.hpp | 12 ++++++++----
 include/boost/signals2/signal.hpp                 |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index d6fd747..c80f5c8 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -121,7 +121,9 @@ namespace boost
         class BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS);
 
       template<BOOST_SIGNALS2_SIGNAL_TEMPLATE_SPECIALIZATION_DECL(BOOST_SIGNALS2_NUM_ARGS)>
-      class BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS) BOOST_SIGNALS2_SIGNAL_TEMPLATE_SPECIALIZATION
+      class BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS) BOOST_SIGNALS2_SIGNAL_TEMPLATE_SPECIALIZATION:
+        public enable_shared_from_this<BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> >
       {
       public:
         typedef SlotFunction slot_function_type;
@@ -425,7 +427,7 @@ namespace boost
             const slot_call_iterator_cache_type &cache,
             const signal_type &sig,
             const connection_list_type *connection_bodies
-          ):_cache(cache), _sig(sig), _connection_bodies(connection_bodies)
+          ):_cache(cache), _weak_sig(sig.weak_from_this()), _connection_bodies(connection_bodies)
           {}
           ~invocation_janitor()
           {
@@ -434,7 +436,9 @@ namespace boost
             {
               BOOST_TRY
               {
-                _sig.force_cleanup_connections(_connection_bodies);
+                // the signal might have been destroyed by one of the slots
+                shared_ptr<const signal_type> sig = _weak_sig.lock();
+                if(sig) sig->force_cleanup_connections(_connection_bodies);
               }
               BOOST_CATCH(...)
               {
@@ -446,7 +450,7 @@ namespace boost
           }
         private:
           const slot_call_iterator_cache_type &_cache;
-          const signal_type &_sig;
+          const weak_ptr<const signal_type> _weak_sig;
           const connection_list_type *_connection_bodies;
         };
 
diff --git a/include/boost/signals2/signal.hpp b/include/boost/signals2/signal.hpp
index 716f119..4ad5fc3 100644
--- a/include/boost/signals2/signal.hpp
+++ b/include/boost/signals2/signal.hpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/noncopyable.hpp>
 #include <boost/function.hpp>
 #include <boost/mpl/identity.hpp>
@@ -30,6 +31,8 @@
 #include <boost/signals2/optional_last_value.hpp>
 #include <boost/signals2/mutex.hpp>
 #include <boost/signals2/slot.hpp>
+#include <boost/smart_ptr/enable_shared_from_this.hpp>
+#include <boost/weak_ptr.hpp>
 #include <functional>
 
 #ifdef BOOST_NO_CXX11_VARIADIC_TEMPLATES
-- 
2.43.0


From 3727da82b9cc8d342ae3208f5767c10e6a7da85b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 08/19] fix: disconnect(signal) with the preprocessed
 (non-variadic) signal classes

boost::signals2::signal derives from signalN there, so overload resolution chose
contains(const T&), which returns false, and the signal was never disconnected.
---
 include/boost/signals2/detail/signal_template.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index c80f5c8..2b9035d 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -860,8 +860,11 @@ namespace boost
         {
           return _weak_pimpl.lock().get() == signal._pimpl.get(); 
         }
+        // not for classes derived from the signal class above, such as the preprocessed boost::signals2::signal
         template <typename T>
-        bool contains(const T&) const
+        typename boost::disable_if<boost::is_convertible<const T *,
+          const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> *>, bool>::type contains(const T&) const
         {
           return false;
         }
-- 
2.43.0


From f10a8b32ca70e5320caca145f6a4effe6f035065 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 09/19] fix: use the given group comparison object to look up
 groups

grouped_list default-constructed the comparison of its group map, so that
slots of a signal with a stateful group comparison ran in the wrong order.
---
 include/boost/signals2/detail/slot_groups.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index d8e374b..8388288 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -65,7 +65,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
-          _group_key_compare(group_key_compare)
+          _group_map(group_key_compare), _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
           _group_map(other._group_map), _group_key_compare(other._group_key_compare)
-- 
2.43.0


From 59a6122eef0b1c4869c398ba023fbb29b588cecc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 10/19] fix: disconnect(slot function) must not compare the
 functions of expired slots

A slot whose tracked objects have expired may refer to destroyed objects, for
instance one connected with a reference to a trackable function object.
---
 include/boost/signals2/detail/signal_template.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 2b9035d..49bffae 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -553,7 +553,11 @@ namespace boost
           for(it = local_state->connection_bodies().begin();
             it != local_state->connection_bodies().end(); ++it)
           {
+            // the slot function may refer to tracked objects, so don't compare it
+            // if they have expired, and keep them alive while comparing it otherwise.
+            auto_buffer<void_shared_ptr_variant, store_n_objects<10> > tracked_ptrs;
             garbage_collecting_lock<connection_body_base> lock(**it);
+            (*it)->nolock_grab_tracked_objects(lock, std::back_inserter(tracked_ptrs));
             if((*it)->nolock_nograb_connected() == false) continue;
             if((*it)->slot().slot_function().contains(slot))
             {
-- 
2.43.0


From 8167217392790fb831ed9746e15540d3878c9655 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 11/19] fix: set_combiner during an invocation must clean up
 the copied slot list

Otherwise the garbage collector position was reset by every call, and repeated
connect, disconnect and set_combiner in slots made the list grow without limit.
---
 include/boost/signals2/detail/signal_template.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 49bffae..9479de6 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -308,7 +308,7 @@ namespace boost
         }
         void set_combiner(const combiner_type &combiner_arg)
         {
-          unique_lock<mutex_type> lock(*_mutex);
+          garbage_collecting_lock<mutex_type> lock(*_mutex);
           if(_shared_state.unique())
           {
             _shared_state->reset_combiner(combiner_arg);
@@ -318,7 +318,7 @@ namespace boost
             which is currently in use, since that would allow it to be modified
             in place while it is being read. */
             _shared_state = boost::make_shared<invocation_state>(_shared_state->connection_bodies(), combiner_arg);
-            _garbage_collector_it = _shared_state->connection_bodies().end();
+            nolock_cleanup_connections_from(lock, true, _shared_state->connection_bodies().begin());
           }
         }
       private:
-- 
2.43.0


From e16e6a62861ae5699765b9af22fe6be9a914377a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 12/19] fix: self-assignment of a scoped_connection must not
 disconnect it

---
 include/boost/signals2/connection.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index e979be0..adca7bd 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -328,6 +328,7 @@ namespace boost
       }
       scoped_connection& operator=(const connection &rhs) BOOST_NOEXCEPT
       {
+        if(&rhs == this) return *this;
         disconnect();
         connection::operator=(rhs);
         return *this;
-- 
2.43.0


From c4dc4178d3bc1ece5aed618f6e5100a032926d94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 13/19] fix: forward the arguments of extended slots in the
 preprocessed signal classes

An extended slot with a parameter that is a reference to non-const did not
compile without variadic templates, because the wrapper that binds the
connection took all arguments by reference to const.
---
 .../signals2/detail/signals_common_macros.hpp | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/signals2/detail/signals_common_macros.hpp b/include/boost/signals2/detail/signals_common_macros.hpp
index acc0936..b46fc23 100644
--- a/include/boost/signals2/detail/signals_common_macros.hpp
+++ b/include/boost/signals2/detail/signals_common_macros.hpp
@@ -99,14 +99,27 @@
 // prefixT1 & arg1, prefixT2 & arg2, ..., prefixTn & argn
 #define BOOST_SIGNALS2_PREFIXED_FULL_REF_ARGS(arity, prefix) \
   BOOST_PP_ENUM(arity, BOOST_SIGNALS2_PREFIXED_FULL_REF_ARG, prefix)
-// Tn & argn
-#define BOOST_SIGNALS2_FULL_CREF_ARG(z, n, data) \
+#ifdef BOOST_NO_CXX11_RVALUE_REFERENCES
+// const Tn & argn
+#define BOOST_SIGNALS2_FULL_FORWARD_ARG(z, n, data) \
   const BOOST_PP_CAT(T, BOOST_PP_INC(n)) & BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
+// argn
+#define BOOST_SIGNALS2_FORWARDED_ARG(z, n, data) \
+  BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
+#else
+// Tn && argn
+#define BOOST_SIGNALS2_FULL_FORWARD_ARG(z, n, data) \
+  BOOST_PP_CAT(T, BOOST_PP_INC(n)) && BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
+// static_cast<Tn &&>(argn)
+#define BOOST_SIGNALS2_FORWARDED_ARG(z, n, data) \
+  static_cast<BOOST_PP_CAT(T, BOOST_PP_INC(n)) &&>(BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~))
+#endif
 // const T1 & arg1, const T2 & arg2, ..., const Tn & argn
+// or T1 && arg1, T2 && arg2, ..., Tn && argn
 #define BOOST_SIGNALS2_FULL_FORWARD_ARGS(arity) \
-  BOOST_PP_ENUM(arity, BOOST_SIGNALS2_FULL_CREF_ARG, ~)
+  BOOST_PP_ENUM(arity, BOOST_SIGNALS2_FULL_FORWARD_ARG, ~)
 #define BOOST_SIGNALS2_FORWARDED_ARGS(arity) \
-  BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(arity)
+  BOOST_PP_ENUM(arity, BOOST_SIGNALS2_FORWARDED_ARG, ~)
 // preprocessed_arg_typeN
 #define BOOST_SIGNALS2_PREPROCESSED_ARG_N_TYPE_CLASS_NAME(arity) BOOST_PP_CAT(preprocessed_arg_type, arity)
 
-- 
2.43.0


From 3e3630189bc79ddd0356caac49c9dcb018c8d96e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:32 +0000
Subject: [PATCH 14/19] fix: let go of the tracked objects of the last slot
 when the invocation is past it

The objects of every other slot are released when the next one is looked at;
those of the last one stayed locked until the whole invocation had returned,
also while a combiner was still running.
---
 include/boost/signals2/detail/slot_call_iterator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/signals2/detail/slot_call_iterator.hpp b/include/boost/signals2/detail/slot_call_iterator.hpp
index f5f3d39..82eaabe 100644
--- a/include/boost/signals2/detail/slot_call_iterator.hpp
+++ b/include/boost/signals2/detail/slot_call_iterator.hpp
@@ -169,6 +169,7 @@ namespace boost {
           
           if(iter == end)
           {
+            cache->tracked_ptrs.clear();
             if(callable_iter != end)
             {
               lock_type lock(**callable_iter);
-- 
2.43.0


From e92d6aeda6e0433464e8e998b4cb548411dde8bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:01 +0000
Subject: [PATCH 15/19] fix: let extended slots take references to non-const
 without rvalue references

Where rvalue references are not available, the bound extended slot
function took all arguments as references to const, so connecting an
extended slot to a signal with a parameter of type T & did not compile.
It is called with lvalues there, so take them as T &.
---
 include/boost/signals2/detail/signals_common_macros.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/detail/signals_common_macros.hpp b/include/boost/signals2/detail/signals_common_macros.hpp
index b46fc23..f371dcc 100644
--- a/include/boost/signals2/detail/signals_common_macros.hpp
+++ b/include/boost/signals2/detail/signals_common_macros.hpp
@@ -100,9 +100,9 @@
 #define BOOST_SIGNALS2_PREFIXED_FULL_REF_ARGS(arity, prefix) \
   BOOST_PP_ENUM(arity, BOOST_SIGNALS2_PREFIXED_FULL_REF_ARG, prefix)
 #ifdef BOOST_NO_CXX11_RVALUE_REFERENCES
-// const Tn & argn
+// Tn & argn
 #define BOOST_SIGNALS2_FULL_FORWARD_ARG(z, n, data) \
-  const BOOST_PP_CAT(T, BOOST_PP_INC(n)) & BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
+  BOOST_PP_CAT(T, BOOST_PP_INC(n)) & BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
 // argn
 #define BOOST_SIGNALS2_FORWARDED_ARG(z, n, data) \
   BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~)
@@ -114,7 +114,7 @@
 #define BOOST_SIGNALS2_FORWARDED_ARG(z, n, data) \
   static_cast<BOOST_PP_CAT(T, BOOST_PP_INC(n)) &&>(BOOST_SIGNALS2_SIGNATURE_ARG_NAME(~, n, ~))
 #endif
-// const T1 & arg1, const T2 & arg2, ..., const Tn & argn
+// T1 & arg1, T2 & arg2, ..., Tn & argn
 // or T1 && arg1, T2 && arg2, ..., Tn && argn
 #define BOOST_SIGNALS2_FULL_FORWARD_ARGS(arity) \
   BOOST_PP_ENUM(arity, BOOST_SIGNALS2_FULL_FORWARD_ARG, ~)
-- 
2.43.0


From 291e671e5b3458d118d89b6564485d2d1901c15f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:17 +0000
Subject: [PATCH 16/19] fix: release the old slots of a move-assigned signal
 last

The old slots were destroyed before the right hand side was moved from, so
a right hand side owned by one of them was used after its destruction.
---
 include/boost/signals2/detail/signal_template.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 9479de6..038f210 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -715,8 +715,10 @@ namespace boost
         {
           return *this;
         }
-        _pimpl.reset();
         using std::swap;
+        // the old slots are released last, since they might own rhs
+        shared_ptr<impl_class> old_pimpl;
+        swap(old_pimpl, _pimpl);
         swap(_pimpl, rhs._pimpl);
         return *this;
       }
-- 
2.43.0


From 1083b50f23d7c440ac3cfced78173db2b03872cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:17 +0000
Subject: [PATCH 17/19] fix: disconnect the old connection of an assigned
 scoped_connection last

The old connection was disconnected before the right hand side was copied
or moved from, so a right hand side owned by the disconnected slot was used
after its destruction.
---
 include/boost/signals2/connection.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index adca7bd..9ece692 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -329,8 +329,9 @@ namespace boost
       scoped_connection& operator=(const connection &rhs) BOOST_NOEXCEPT
       {
         if(&rhs == this) return *this;
-        disconnect();
-        connection::operator=(rhs);
+        // the old connection is disconnected last, since its slot might own rhs
+        scoped_connection new_connection(rhs);
+        swap(new_connection);
         return *this;
       }
 
@@ -345,15 +346,17 @@ namespace boost
       scoped_connection & operator=(scoped_connection && other) BOOST_NOEXCEPT
       {
         if(&other == this) return *this;
-        disconnect();
-        connection::operator=(std::move(other));
+        // the old connection is disconnected last, since its slot might own other
+        scoped_connection new_connection(std::move(other));
+        swap(new_connection);
         return *this;
       }
       scoped_connection & operator=(connection && other) BOOST_NOEXCEPT
       {
         if(&other == this) return *this;
-        disconnect();
-        connection::operator=(std::move(other));
+        // the old connection is disconnected last, since its slot might own other
+        scoped_connection new_connection(std::move(other));
+        swap(new_connection);
         return *this;
       }
 #endif // !defined(BOOST_NO_CXX11_RVALUE_REFERENCES)
-- 
2.43.0


From 4eacbfc8b40135f07743d2f630cd1a3a36d7e92a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:17 +0000
Subject: [PATCH 18/19] fix: let a slot track itself

slot.track(slot) iterated over the container it added to.
---
 include/boost/signals2/detail/slot_template.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_template.hpp b/include/boost/signals2/detail/slot_template.hpp
index 1c17c5b..f7d51c3 100644
--- a/include/boost/signals2/detail/slot_template.hpp
+++ b/include/boost/signals2/detail/slot_template.hpp
@@ -123,8 +123,10 @@ namespace boost
       }
       BOOST_SIGNALS2_SLOT_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)& track(const slot_base &slot)
       {
+        // a copy, since slot might be this slot
+        const tracked_container_type other_tracked_objects(slot.tracked_objects());
         tracked_container_type::const_iterator it;
-        for(it = slot.tracked_objects().begin(); it != slot.tracked_objects().end(); ++it)
+        for(it = other_tracked_objects.begin(); it != other_tracked_objects.end(); ++it)
         {
           _tracked_objects.push_back(*it);
         }
-- 
2.43.0


From 843ab6fbd1669fab8c02d23ac2edbbbdde0db122 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:17 +0000
Subject: [PATCH 19/19] fix: disconnect the slots equal to a given one after
 comparing them all

A disconnected slot function was released while the remaining ones were
still to be compared, so an argument of disconnect owned by it was used
after its destruction.
---
 include/boost/signals2/detail/signal_template.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 038f210..b5ca363 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -550,6 +550,8 @@ namespace boost
           shared_ptr<invocation_state> local_state =
             get_readable_state();
           typename connection_list_type::iterator it;
+          // disconnected after all comparisons, since releasing their slot functions might destroy slot
+          auto_buffer<connection_body_type, store_n_objects<10> > matching_bodies;
           for(it = local_state->connection_bodies().begin();
             it != local_state->connection_bodies().end(); ++it)
           {
@@ -561,25 +563,29 @@ namespace boost
             if((*it)->nolock_nograb_connected() == false) continue;
             if((*it)->slot().slot_function().contains(slot))
             {
-              (*it)->nolock_disconnect(lock);
+              matching_bodies.push_back(*it);
             }else
             { // check for wrapped extended slot
               bound_extended_slot_function_type *fp;
               fp = (*it)->slot().slot_function().template target<bound_extended_slot_function_type>();
               if(fp && fp->contains(slot))
               {
-                (*it)->nolock_disconnect(lock);
+                matching_bodies.push_back(*it);
               }else
               { // check for wrapped signal
                 weak_signal_type *fp;
                 fp = (*it)->slot().slot_function().template target<weak_signal_type>();
                 if(fp && fp->contains(slot))
                 {
-                  (*it)->nolock_disconnect(lock);
+                  matching_bodies.push_back(*it);
                 }
               }
             }
           }
+          for(std::size_t i = 0; i < matching_bodies.size(); ++i)
+          {
+            matching_bodies[i]->disconnect();
+          }
         }
         // connect slot
         connection nolock_connect(garbage_collecting_lock<mutex_type> &lock,
-- 
2.43.0


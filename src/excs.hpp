// Exceptions of many types thrown by slots and combiners: what the library does must not depend on the type (except for
// expired_slot).
#ifndef VERIF_EXCS_HPP
#define VERIF_EXCS_HPP
#include <boost/smart_ptr/bad_weak_ptr.hpp>
#include <boost/signals2/last_value.hpp>
#include <new>
#include <stdexcept>
namespace vf {
struct UserExc { int id; };
struct UserExcD : UserExc { long more; };
struct UserWeak : boost::bad_weak_ptr { int id; explicit UserWeak(int i) : id(i) {} };
struct UserStd : std::runtime_error { int id; explicit UserStd(int i) : std::runtime_error("user exception with a message that does not fit anywhere"), id(i) {} };
struct UserNoSlots : boost::signals2::no_slots_error { int id; explicit UserNoSlots(int i) : id(i) {} };
struct UserAlloc : std::bad_alloc { int id; explicit UserAlloc(int i) : id(i) {} };
enum { USER_EXC_KINDS = 8 };
inline void throw_user(unsigned kind, int id) {
  static int last;
  switch (kind % USER_EXC_KINDS) {
    case 0: { UserExc e = {id}; throw e; }
    case 1: throw id;
    case 2: throw UserWeak(id);
    case 3: throw UserStd(id);
    case 4: throw UserNoSlots(id);
    case 5: throw UserAlloc(id);
    case 6: { UserExcD e; e.id = id; e.more = ~long(id); throw e; }
    default: last = id; throw static_cast<const int *>(&last);
  }
}
// in a handler: the exception is one of throw_user; which one
inline bool is_user(int &id, unsigned &kind) {
  try { throw; }
  catch (const UserExcD &e) { id = e.id; kind = 6; return e.more == ~long(id); }
  catch (const UserExc &e) { id = e.id; kind = 0; return true; }
  catch (int e) { id = e; kind = 1; return true; }
  catch (const UserWeak &e) { id = e.id; kind = 2; return true; }
  catch (const UserStd &e) { id = e.id; kind = 3; return true; }
  catch (const UserNoSlots &e) { id = e.id; kind = 4; return true; }
  catch (const UserAlloc &e) { id = e.id; kind = 5; return true; }
  catch (const int *e) { id = *e; kind = 7; return true; }
  catch (...) { return false; }
}
} // namespace vf
#endif

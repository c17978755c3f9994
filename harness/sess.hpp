#pragma once
#include "session_manager.hpp"
namespace vf {
// forgets the sessions of earlier cases where the manager keeps them under the known name (they only take memory)
template <class M> auto forget_in(M* m, int) -> decltype(m->sessions_.clear(), void()) { m->sessions_.clear(); }
template <class M> void forget_in(M*, long) {}
inline void forget_sessions() { forget_in(SessionManager::Instance(), 0); }
}

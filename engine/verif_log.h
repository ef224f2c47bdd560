// Replaces the *sink* of the logging macros; CHECK/CHECK_EXPR/... stay those of /repo/util/log.h.
#ifndef VERIF_LOG_H_
#define VERIF_LOG_H_
#include "util/log.h"
struct VerifNullLog {
  template<class T> __attribute__((always_inline)) const VerifNullLog& operator<<(const T&) const { return *this; }
  __attribute__((always_inline)) const VerifNullLog& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
};
#undef LOG
#undef DUMP
#define LOG(X) VerifNullLog()
#define DUMP(X) VerifNullLog()
#endif

#ifndef VERIF_ABSL_LOG_H_
#define VERIF_ABSL_LOG_H_
#include "absl/log/check.h"
#define VERIF_LOG_FATAL ::verif_log::Fatal(__FILE__, __LINE__, "LOG(FATAL)")
#define VERIF_LOG_DFATAL ::verif_log::Fatal(__FILE__, __LINE__, "LOG(DFATAL)")
#define VERIF_LOG_INFO ::verif_log::Null()
#define VERIF_LOG_WARNING ::verif_log::Null()
#define VERIF_LOG_ERROR ::verif_log::Null()
#define LOG(s) VERIF_LOG_##s
#define LOG_IF(s, c) !(c) ? (void)0 : ::verif_log::Voidify() & VERIF_LOG_##s
#define VLOG(n) ::verif_log::Null()
#define DLOG(s) VERIF_LOG_##s
#endif

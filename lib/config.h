/* configuration the real sources are compiled with for the checks: what
 * cmake generates, with the table sizes made small (bounds of the checks). */
#pragma once
#define ADMIN_PWD "Zp9"
#define HAVE_FCNTL_H 1
#define HAVE_UNISTD_H 1
#define HAVE_STDARG_H 1
#define HAVE_TIME_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_SELECT_H 1
#define HAVE_GETHOSTNAME 1
#define HAVE_GETTIMEOFDAY 1
#define HAVE_SELECT 1
#define HAVE_SOCKET 1
#define HAVE_STRDUP 1
#define HAVE_STRERROR 1
#define HAVE_SNPRINTF 1
#define HAVE_SOCKLEN_T 1
#define HAVE_SSL 1
#define HAVE_SSL_CTX_SET_MIN_PROTO_VERSION 1
#include "icb_config.h"
#ifndef VP_USERS
#define VP_USERS 4
#endif
#ifndef VP_GROUPS
#define VP_GROUPS 4
#endif
#undef MAX_USERS
#define MAX_USERS VP_USERS
#undef MAX_GROUPS
#define MAX_GROUPS VP_GROUPS

/* modules/libc/include/picotm/config/picotm-libc-config.h.  Generated from picotm-libc-config.h.in by configure.  */
/*
 * picotm - A system-level transaction manager
 * Copyright (c) 2017-2018  Thomas Zimmermann <contact@tzimmermann.org>
 *
 * This program is free software: you can redistribute it and/or modify
 * it under the terms of the GNU Lesser General Public License as published by
 * the Free Software Foundation, either version 3 of the License, or
 * (at your option) any later version.
 *
 * This program is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
 * GNU General Public License for more details.
 *
 * You should have received a copy of the GNU Lesser General Public License
 * along with this program.  If not, see <https://www.gnu.org/licenses/>.
 *
 * SPDX-License-Identifier: LGPL-3.0-or-later
 */

#pragma once

/*
 * Types
 */

#ifndef PICOTM_LIBC_HAVE_TYPE_BLKCNT_T
#define PICOTM_LIBC_HAVE_TYPE_BLKCNT_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_BLKSIZE_T
#define PICOTM_LIBC_HAVE_TYPE_BLKSIZE_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_BOOL
#define PICOTM_LIBC_HAVE_TYPE_BOOL 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_CLOCK_T
#define PICOTM_LIBC_HAVE_TYPE_CLOCK_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_CLOCKID_T
#define PICOTM_LIBC_HAVE_TYPE_CLOCKID_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_DEV_T
#define PICOTM_LIBC_HAVE_TYPE_DEV_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_DIV_T
#define PICOTM_LIBC_HAVE_TYPE_DIV_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_FSBLKCNT_T
#define PICOTM_LIBC_HAVE_TYPE_FSBLKCNT_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_FSFILCNT_T
#define PICOTM_LIBC_HAVE_TYPE_FSFILCNT_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_GID_T
#define PICOTM_LIBC_HAVE_TYPE_GID_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_ID_T
#define PICOTM_LIBC_HAVE_TYPE_ID_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INO_T
#define PICOTM_LIBC_HAVE_TYPE_INO_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_FAST8_T
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST8_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_FAST16_T
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST16_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_FAST32_T
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST32_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_FAST64_T
#define PICOTM_LIBC_HAVE_TYPE_INT_FAST64_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_LEAST8_T
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST8_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_LEAST16_T
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST16_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_LEAST32_T
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST32_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT_LEAST64_T
#define PICOTM_LIBC_HAVE_TYPE_INT_LEAST64_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT8_T
#define PICOTM_LIBC_HAVE_TYPE_INT8_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT16_T
#define PICOTM_LIBC_HAVE_TYPE_INT16_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT32_T
#define PICOTM_LIBC_HAVE_TYPE_INT32_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INT64_T
#define PICOTM_LIBC_HAVE_TYPE_INT64_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INTMAX_T
#define PICOTM_LIBC_HAVE_TYPE_INTMAX_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_INTPTR_T
#define PICOTM_LIBC_HAVE_TYPE_INTPTR_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_KEY_T
#define PICOTM_LIBC_HAVE_TYPE_KEY_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_LDIV_T
#define PICOTM_LIBC_HAVE_TYPE_LDIV_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_LLDIV_T
#define PICOTM_LIBC_HAVE_TYPE_LLDIV_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_LOCALE_T
#define PICOTM_LIBC_HAVE_TYPE_LOCALE_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_MODE_T
#define PICOTM_LIBC_HAVE_TYPE_MODE_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_NLINK_T
#define PICOTM_LIBC_HAVE_TYPE_NLINK_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_OFF_T
#define PICOTM_LIBC_HAVE_TYPE_OFF_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_PID_T
#define PICOTM_LIBC_HAVE_TYPE_PID_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_PTRDIFF_T
#define PICOTM_LIBC_HAVE_TYPE_PTRDIFF_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_SIZE_T
#define PICOTM_LIBC_HAVE_TYPE_SIZE_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_SSIZE_T
#define PICOTM_LIBC_HAVE_TYPE_SSIZE_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_STRUCT_LCONV
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_LCONV 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_STRUCT_ITIMERSPEC
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_ITIMERSPEC 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_STRUCT_TIMESPEC
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_TIMESPEC 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_STRUCT_TM
#define PICOTM_LIBC_HAVE_TYPE_STRUCT_TM 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_SUSECONDS_T
#define PICOTM_LIBC_HAVE_TYPE_SUSECONDS_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_TIME_T
#define PICOTM_LIBC_HAVE_TYPE_TIME_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_TIMER_T
#define PICOTM_LIBC_HAVE_TYPE_TIMER_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UID_T
#define PICOTM_LIBC_HAVE_TYPE_UID_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_FAST8_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST8_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_FAST16_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST16_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_FAST32_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST32_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_FAST64_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_FAST64_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_LEAST8_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST8_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_LEAST16_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST16_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_LEAST32_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST32_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT_LEAST64_T
#define PICOTM_LIBC_HAVE_TYPE_UINT_LEAST64_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT8_T
#define PICOTM_LIBC_HAVE_TYPE_UINT8_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT16_T
#define PICOTM_LIBC_HAVE_TYPE_UINT16_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT32_T
#define PICOTM_LIBC_HAVE_TYPE_UINT32_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINT64_T
#define PICOTM_LIBC_HAVE_TYPE_UINT64_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINTMAX_T
#define PICOTM_LIBC_HAVE_TYPE_UINTMAX_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_UINTPTR_T
#define PICOTM_LIBC_HAVE_TYPE_UINTPTR_T 1
#endif

#ifndef PICOTM_LIBC_HAVE_TYPE_WCHAR_T
#define PICOTM_LIBC_HAVE_TYPE_WCHAR_T 1
#endif

/*
 * Public interfaces
 */

#ifndef PICOTM_LIBC_HAVE__EXIT
#define PICOTM_LIBC_HAVE__EXIT 1
#endif

#ifndef PICOTM_LIBC_HAVE_ABORT
#define PICOTM_LIBC_HAVE_ABORT 1
#endif

#ifndef PICOTM_LIBC_HAVE_ACCEPT
#define PICOTM_LIBC_HAVE_ACCEPT 1
#endif

#ifndef PICOTM_LIBC_HAVE_BIND
#define PICOTM_LIBC_HAVE_BIND 1
#endif

#ifndef PICOTM_LIBC_HAVE_CALLOC
#define PICOTM_LIBC_HAVE_CALLOC 1
#endif

#ifndef PICOTM_LIBC_HAVE_CHDIR
#define PICOTM_LIBC_HAVE_CHDIR 1
#endif

#ifndef PICOTM_LIBC_HAVE_CHMOD
#define PICOTM_LIBC_HAVE_CHMOD 1
#endif

#ifndef PICOTM_LIBC_HAVE_CLOSE
#define PICOTM_LIBC_HAVE_CLOSE 1
#endif

#ifndef PICOTM_LIBC_HAVE_CONNECT
#define PICOTM_LIBC_HAVE_CONNECT 1
#endif

#ifndef PICOTM_LIBC_HAVE_CREAT
#define PICOTM_LIBC_HAVE_CREAT 1
#endif

#ifndef PICOTM_LIBC_HAVE_DUP
#define PICOTM_LIBC_HAVE_DUP 1
#endif

#ifndef PICOTM_LIBC_HAVE_DUP2
#define PICOTM_LIBC_HAVE_DUP2 1
#endif

#ifndef PICOTM_LIBC_HAVE_DUPLOCALE
#define PICOTM_LIBC_HAVE_DUPLOCALE 1
#endif

#ifndef PICOTM_LIBC_HAVE_ERRNO
#define PICOTM_LIBC_HAVE_ERRNO 1
#endif

#ifndef PICOTM_LIBC_HAVE_EXIT
#define PICOTM_LIBC_HAVE_EXIT 1
#endif

#ifndef PICOTM_LIBC_HAVE_FCHDIR
#define PICOTM_LIBC_HAVE_FCHDIR 1
#endif

#ifndef PICOTM_LIBC_HAVE_FCHMOD
#define PICOTM_LIBC_HAVE_FCHMOD 1
#endif

#ifndef PICOTM_LIBC_HAVE_FCNTL
#define PICOTM_LIBC_HAVE_FCNTL 1
#endif

#ifndef PICOTM_LIBC_HAVE_FREE
#define PICOTM_LIBC_HAVE_FREE 1
#endif

#ifndef PICOTM_LIBC_HAVE_FREELOCALE
#define PICOTM_LIBC_HAVE_FREELOCALE 1
#endif

#ifndef PICOTM_LIBC_HAVE_FSTAT
#define PICOTM_LIBC_HAVE_FSTAT 1
#endif

#ifndef PICOTM_LIBC_HAVE_FSYNC
#define PICOTM_LIBC_HAVE_FSYNC 1
#endif

#ifndef PICOTM_LIBC_HAVE_GETCWD
#define PICOTM_LIBC_HAVE_GETCWD 1
#endif

#ifndef PICOTM_LIBC_HAVE_LINK
#define PICOTM_LIBC_HAVE_LINK 1
#endif

#ifndef PICOTM_LIBC_HAVE_LISTEN
#define PICOTM_LIBC_HAVE_LISTEN 1
#endif

#ifndef PICOTM_LIBC_HAVE_LSEEK
#define PICOTM_LIBC_HAVE_LSEEK 1
#endif

#ifndef PICOTM_LIBC_HAVE_LSTAT
#define PICOTM_LIBC_HAVE_LSTAT 1
#endif

#ifndef PICOTM_LIBC_HAVE_LOCALECONV
#define PICOTM_LIBC_HAVE_LOCALECONV 1
#endif

#ifndef PICOTM_LIBC_HAVE_MALLOC
#define PICOTM_LIBC_HAVE_MALLOC 1
#endif

#ifndef PICOTM_LIBC_HAVE_MEMCCPY
#define PICOTM_LIBC_HAVE_MEMCCPY 1
#endif

#ifndef PICOTM_LIBC_HAVE_MEMCHR
#define PICOTM_LIBC_HAVE_MEMCHR 1
#endif

#ifndef PICOTM_LIBC_HAVE_MEMCMP
#define PICOTM_LIBC_HAVE_MEMCMP 1
#endif

#ifndef PICOTM_LIBC_HAVE_MEMCPY
#define PICOTM_LIBC_HAVE_MEMCPY 1
#endif

#ifndef PICOTM_LIBC_HAVE_MEMMOVE
#define PICOTM_LIBC_HAVE_MEMMOVE 1
#endif

#ifndef PICOTM_LIBC_HAVE_MEMSET
#define PICOTM_LIBC_HAVE_MEMSET 1
#endif

#ifndef PICOTM_LIBC_HAVE_MEMRCHR
#define PICOTM_LIBC_HAVE_MEMRCHR 1
#endif

#ifndef PICOTM_LIBC_HAVE_MKDIR
#define PICOTM_LIBC_HAVE_MKDIR 1
#endif

#ifndef PICOTM_LIBC_HAVE_MKDTEMP
#define PICOTM_LIBC_HAVE_MKDTEMP 1
#endif

#ifndef PICOTM_LIBC_HAVE_MKFIFO
#define PICOTM_LIBC_HAVE_MKFIFO 1
#endif

#ifndef PICOTM_LIBC_HAVE_MKNOD
#define PICOTM_LIBC_HAVE_MKNOD 1
#endif

#ifndef PICOTM_LIBC_HAVE_MKSTEMP
#define PICOTM_LIBC_HAVE_MKSTEMP 1
#endif

#ifndef PICOTM_LIBC_HAVE_NEWLOCALE
#define PICOTM_LIBC_HAVE_NEWLOCALE 1
#endif

#ifndef PICOTM_LIBC_HAVE_OPEN
#define PICOTM_LIBC_HAVE_OPEN 1
#endif

#ifndef PICOTM_LIBC_HAVE_PIPE
#define PICOTM_LIBC_HAVE_PIPE 1
#endif

#ifndef PICOTM_LIBC_HAVE_POSIX_MEMALIGN
#define PICOTM_LIBC_HAVE_POSIX_MEMALIGN 1
#endif

#ifndef PICOTM_LIBC_HAVE_PREAD
#define PICOTM_LIBC_HAVE_PREAD 1
#endif

#ifndef PICOTM_LIBC_HAVE_PWRITE
#define PICOTM_LIBC_HAVE_PWRITE 1
#endif

#ifndef PICOTM_LIBC_HAVE_QSORT
#define PICOTM_LIBC_HAVE_QSORT 1
#endif

#ifndef PICOTM_LIBC_HAVE_RAND_R
#define PICOTM_LIBC_HAVE_RAND_R 1
#endif

#ifndef PICOTM_LIBC_HAVE_RAWMEMCHR
#define PICOTM_LIBC_HAVE_RAWMEMCHR 1
#endif

#ifndef PICOTM_LIBC_HAVE_READ
#define PICOTM_LIBC_HAVE_READ 1
#endif

#ifndef PICOTM_LIBC_HAVE_REALLOC
#define PICOTM_LIBC_HAVE_REALLOC 1
#endif

#ifndef PICOTM_LIBC_HAVE_RECV
#define PICOTM_LIBC_HAVE_RECV 1
#endif

#ifndef PICOTM_LIBC_HAVE_SCHED_YIELD
#define PICOTM_LIBC_HAVE_SCHED_YIELD 1
#endif

#ifndef PICOTM_LIBC_HAVE_SEND
#define PICOTM_LIBC_HAVE_SEND 1
#endif

#ifndef PICOTM_LIBC_HAVE_SETLOCALE
#define PICOTM_LIBC_HAVE_SETLOCALE 1
#endif

#ifndef PICOTM_LIBC_HAVE_SHUTDOWN
#define PICOTM_LIBC_HAVE_SHUTDOWN 1
#endif

#ifndef PICOTM_LIBC_HAVE_SLEEP
#define PICOTM_LIBC_HAVE_SLEEP 1
#endif

#ifndef PICOTM_LIBC_HAVE_SNPRINTF
#define PICOTM_LIBC_HAVE_SNPRINTF 1
#endif

#ifndef PICOTM_LIBC_HAVE_SOCKET
#define PICOTM_LIBC_HAVE_SOCKET 1
#endif

#ifndef PICOTM_LIBC_HAVE_SSCANF
#define PICOTM_LIBC_HAVE_SSCANF 1
#endif

#ifndef PICOTM_LIBC_HAVE_STAT
#define PICOTM_LIBC_HAVE_STAT 1
#endif

#ifndef PICOTM_LIBC_HAVE_STPCPY
#define PICOTM_LIBC_HAVE_STPCPY 1
#endif

#ifndef PICOTM_LIBC_HAVE_STPNCPY
#define PICOTM_LIBC_HAVE_STPNCPY 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRCAT
#define PICOTM_LIBC_HAVE_STRCAT 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRCHR
#define PICOTM_LIBC_HAVE_STRCHR 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRCMP
#define PICOTM_LIBC_HAVE_STRCMP 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRCOLL_L
#define PICOTM_LIBC_HAVE_STRCOLL_L 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRCMP
#define PICOTM_LIBC_HAVE_STRCMP 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRCSPN
#define PICOTM_LIBC_HAVE_STRCSPN 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRDUP
#define PICOTM_LIBC_HAVE_STRDUP 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRERROR_R
#define PICOTM_LIBC_HAVE_STRERROR_R 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRFTIME
#define PICOTM_LIBC_HAVE_STRFTIME 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRFTIME_L
#define PICOTM_LIBC_HAVE_STRFTIME_L 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRLEN
#define PICOTM_LIBC_HAVE_STRLEN 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRNCAT
#define PICOTM_LIBC_HAVE_STRNCAT 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRNCMP
#define PICOTM_LIBC_HAVE_STRNCMP 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRNCPY
#define PICOTM_LIBC_HAVE_STRNCPY 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRNDUP
#define PICOTM_LIBC_HAVE_STRNDUP 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRNLEN
#define PICOTM_LIBC_HAVE_STRNLEN 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRPBRK
#define PICOTM_LIBC_HAVE_STRPBRK 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRPTIME
#define PICOTM_LIBC_HAVE_STRPTIME 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRRCHR
#define PICOTM_LIBC_HAVE_STRRCHR 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRSPN
#define PICOTM_LIBC_HAVE_STRSPN 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRSTR
#define PICOTM_LIBC_HAVE_STRSTR 1
#endif

#ifndef PICOTM_LIBC_HAVE_STRTOK_R
#define PICOTM_LIBC_HAVE_STRTOK_R 1
#endif

#ifndef PICOTM_LIBC_HAVE_SYNC
#define PICOTM_LIBC_HAVE_SYNC 1
#endif

#ifndef PICOTM_LIBC_HAVE_UNLINK
#define PICOTM_LIBC_HAVE_UNLINK 1
#endif

#ifndef PICOTM_LIBC_HAVE_USELOCALE
#define PICOTM_LIBC_HAVE_USELOCALE 1
#endif

#ifndef PICOTM_LIBC_HAVE_VSNPRINTF
#define PICOTM_LIBC_HAVE_VSNPRINTF 1
#endif

#ifndef PICOTM_LIBC_HAVE_VSSCANF
#define PICOTM_LIBC_HAVE_VSSCANF 1
#endif

#ifndef PICOTM_LIBC_HAVE_WRITE
#define PICOTM_LIBC_HAVE_WRITE 1
#endif

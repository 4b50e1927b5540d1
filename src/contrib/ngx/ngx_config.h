/* Stand-ins for the parts of nginx's headers a static-file module uses. The
   declarations follow nginx 1.2x; the functions are in ../../p_nginx.cc. */
#ifndef STUB_NGX_CONFIG_H
#define STUB_NGX_CONFIG_H
#include <ctype.h>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#define NGX_WIN32 0
#define NGX_HAVE_OPENAT 1
#define NGX_HTTP_HEADERS 1
#define NGX_HTTP_GZIP 1
#define NGX_HAVE_FILE_AIO 0
#define NGX_THREADS 0
#define NGX_DEBUG 1
typedef intptr_t ngx_int_t;
typedef uintptr_t ngx_uint_t;
typedef intptr_t ngx_flag_t;
typedef unsigned char u_char;
#define ngx_inline inline
#define ngx_cdecl
#endif

#ifndef STUB_NGX_CORE_H
#define STUB_NGX_CORE_H
#include "ngx_config.h"
#ifdef __cplusplus
extern "C" {
#endif
#define NGX_OK 0
#define NGX_ERROR -1
#define NGX_AGAIN -2
#define NGX_BUSY -3
#define NGX_DONE -4
#define NGX_DECLINED -5
#define NGX_ABORT -6
#define NGX_ENOENT ENOENT
#define NGX_ENOTDIR ENOTDIR
#define NGX_ENAMETOOLONG ENAMETOOLONG
#define NGX_EACCES EACCES
#define NGX_EMLINK EMLINK
#define NGX_ELOOP ELOOP
#define NGX_INVALID_FILE -1
#define NGX_FILE_ERROR -1
#define NGX_LOG_STDERR 0
#define NGX_LOG_EMERG 1
#define NGX_LOG_ALERT 2
#define NGX_LOG_CRIT 3
#define NGX_LOG_ERR 4
#define NGX_LOG_WARN 5
#define NGX_LOG_NOTICE 6
#define NGX_LOG_INFO 7
#define NGX_LOG_DEBUG 8
#define NGX_LOG_DEBUG_HTTP 0x100
typedef int ngx_fd_t;
typedef int ngx_err_t;
typedef struct { size_t len; u_char *data; } ngx_str_t;
#define ngx_string(str) { sizeof(str) - 1, (u_char *) str }
#define ngx_null_string { 0, NULL }
#define ngx_str_set(str, text) (str)->len = sizeof(text) - 1; (str)->data = (u_char *) text
#define ngx_str_null(str) (str)->len = 0; (str)->data = NULL
#define ngx_tolower(c) (u_char) ((c >= 'A' && c <= 'Z') ? (c | 0x20) : c)
#define ngx_toupper(c) (u_char) ((c >= 'a' && c <= 'z') ? (c & ~0x20) : c)
#define ngx_strncmp(s1, s2, n) strncmp((const char *) s1, (const char *) s2, n)
#define ngx_strcmp(s1, s2) strcmp((const char *) s1, (const char *) s2)
#define ngx_strstr(s1, s2) strstr((const char *) s1, (const char *) s2)
#define ngx_strlen(s) strlen((const char *) s)
#define ngx_strchr(s1, c) strchr((const char *) s1, (int) c)
#define ngx_memzero(buf, n) (void) memset(buf, 0, n)
#define ngx_memset(buf, c, n) (void) memset(buf, c, n)
#define ngx_memcpy(dst, src, n) (void) memcpy(dst, src, n)
#define ngx_cpymem(dst, src, n) (((u_char *) memcpy(dst, src, n)) + (n))
#define ngx_memmove(dst, src, n) (void) memmove(dst, src, n)
#define ngx_memcmp(s1, s2, n) memcmp((const char *) s1, (const char *) s2, n)
#define ngx_min(a, b) ((a > b) ? (b) : (a))
#define ngx_max(a, b) ((a < b) ? (b) : (a))
ngx_int_t ngx_strcasecmp(u_char *s1, u_char *s2);
ngx_int_t ngx_strncasecmp(u_char *s1, u_char *s2, size_t n);
u_char *ngx_strcasestrn(u_char *s1, char *s2, size_t n);
u_char *ngx_strlcasestrn(u_char *s1, u_char *last, u_char *s2, size_t n);
u_char *ngx_strnstr(u_char *s1, char *s2, size_t n);
u_char *ngx_strstrn(u_char *s1, char *s2, size_t n);
u_char *ngx_strlchr(u_char *p, u_char *last, u_char c);
typedef struct ngx_pool_s ngx_pool_t;
void *ngx_palloc(ngx_pool_t *pool, size_t size);
void *ngx_pnalloc(ngx_pool_t *pool, size_t size);
void *ngx_pcalloc(ngx_pool_t *pool, size_t size);
ngx_int_t ngx_pfree(ngx_pool_t *pool, void *p);
u_char *ngx_pstrdup(ngx_pool_t *pool, ngx_str_t *src);
typedef struct ngx_log_s { ngx_uint_t log_level; char *action; void *data; } ngx_log_t;
void ngx_stub_log(ngx_uint_t level, ngx_log_t *log, ngx_err_t err, const char *fmt, ...);
#define ngx_log_error(level, log, ...) ngx_stub_log(level, log, __VA_ARGS__)
#define ngx_log_debug0(level, log, ...) ngx_stub_log(NGX_LOG_DEBUG, log, __VA_ARGS__)
#define ngx_log_debug1(level, log, ...) ngx_stub_log(NGX_LOG_DEBUG, log, __VA_ARGS__)
#define ngx_log_debug2(level, log, ...) ngx_stub_log(NGX_LOG_DEBUG, log, __VA_ARGS__)
#define ngx_log_debug3(level, log, ...) ngx_stub_log(NGX_LOG_DEBUG, log, __VA_ARGS__)
typedef struct { void *elts; ngx_uint_t nelts; size_t size; ngx_uint_t nalloc; ngx_pool_t *pool; } ngx_array_t;
void *ngx_array_push(ngx_array_t *a);
typedef struct ngx_list_part_s { void *elts; ngx_uint_t nelts; struct ngx_list_part_s *next; } ngx_list_part_t;
typedef struct { ngx_list_part_t *last; ngx_list_part_t part; size_t size; ngx_uint_t nalloc; ngx_pool_t *pool; } ngx_list_t;
void *ngx_list_push(ngx_list_t *list);
typedef struct { ngx_uint_t hash; ngx_str_t key; ngx_str_t value; u_char *lowcase_key; } ngx_table_elt_t;
typedef struct { ngx_fd_t fd; ngx_str_t name; off_t offset; off_t sys_offset; ngx_log_t *log; unsigned valid_info:1; unsigned directio:1; } ngx_file_t;
typedef struct ngx_buf_s {
  u_char *pos; u_char *last; off_t file_pos; off_t file_last; u_char *start; u_char *end; void *tag; ngx_file_t *file; struct ngx_buf_s *shadow;
  unsigned temporary:1; unsigned memory:1; unsigned mmap:1; unsigned recycled:1; unsigned in_file:1; unsigned flush:1; unsigned sync:1; unsigned last_buf:1; unsigned last_in_chain:1; unsigned last_shadow:1; unsigned temp_file:1;
} ngx_buf_t;
typedef struct ngx_chain_s { ngx_buf_t *buf; struct ngx_chain_s *next; } ngx_chain_t;
typedef struct ngx_open_file_cache_s ngx_open_file_cache_t;
typedef struct {
  ngx_fd_t fd; ino_t uniq; time_t mtime; off_t size; off_t fs_size; off_t directio; size_t read_ahead; ngx_err_t err; const char *failed; time_t valid; ngx_uint_t min_uses;
  size_t disable_symlinks_from; unsigned disable_symlinks:2; unsigned test_dir:1; unsigned test_only:1; unsigned log:1; unsigned errors:1; unsigned events:1; unsigned is_dir:1; unsigned is_file:1; unsigned is_link:1; unsigned is_exec:1; unsigned is_directio:1;
} ngx_open_file_info_t;
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t *cache, ngx_str_t *name, ngx_open_file_info_t *of, ngx_pool_t *pool);
typedef struct ngx_command_s ngx_command_t;
typedef struct { char *name; ngx_array_t *args; ngx_pool_t *pool; ngx_log_t *log; void *ctx; } ngx_conf_t;
struct ngx_command_s { ngx_str_t name; ngx_uint_t type; char *(*set)(ngx_conf_t *cf, ngx_command_t *cmd, void *conf); ngx_uint_t conf; ngx_uint_t offset; void *post; };
#define ngx_null_command { ngx_null_string, 0, NULL, 0, 0, NULL }
typedef struct { ngx_str_t name; ngx_uint_t value; } ngx_conf_enum_t;
char *ngx_conf_set_enum_slot(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);
char *ngx_conf_set_flag_slot(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);
#define NGX_CONF_OK NULL
#define NGX_CONF_ERROR ((char *) -1)
#define NGX_CONF_UNSET -1
#define NGX_CONF_UNSET_UINT ((ngx_uint_t) -1)
#define NGX_CONF_UNSET_PTR ((void *) -1)
#define NGX_CONF_UNSET_SIZE ((size_t) -1)
#define NGX_CONF_UNSET_MSEC ((ngx_uint_t) -1)
#define NGX_CONF_TAKE1 0x00000002
#define NGX_CONF_FLAG 0x00000200
#define ngx_conf_merge_value(conf, prev, def) if (conf == NGX_CONF_UNSET) { conf = (prev == NGX_CONF_UNSET) ? def : prev; }
#define ngx_conf_merge_uint_value(conf, prev, def) if (conf == NGX_CONF_UNSET_UINT) { conf = (prev == NGX_CONF_UNSET_UINT) ? def : prev; }
#define ngx_conf_init_uint_value(conf, def) if (conf == NGX_CONF_UNSET_UINT) { conf = def; }
typedef struct { ngx_uint_t ctx_index; ngx_uint_t index; char *name; ngx_uint_t spare0; ngx_uint_t spare1; ngx_uint_t version; const char *signature; void *ctx; ngx_command_t *commands; ngx_uint_t type;
  ngx_int_t (*init_master)(ngx_log_t *); ngx_int_t (*init_module)(void *); ngx_int_t (*init_process)(void *); ngx_int_t (*init_thread)(void *); void (*exit_thread)(void *); void (*exit_process)(void *); void (*exit_master)(void *); uintptr_t hooks[8]; } ngx_module_t;
#define NGX_MODULE_V1 0, 0, NULL, 0, 0, 1025000, "stub"
#define NGX_MODULE_V1_PADDING {0, 0, 0, 0, 0, 0, 0, 0}
#ifdef __cplusplus
}
#endif
#endif

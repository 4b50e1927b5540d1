/* Stand-ins for the parts of Apache httpd and APR a translate-name module
   uses; the functions are in ../../p_apache.cc. */
#ifndef STUB_HTTPD_H
#define STUB_HTTPD_H
#include <ctype.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int apr_status_t;
typedef int64_t apr_off_t;
typedef int64_t apr_time_t;
typedef int32_t apr_int32_t;
typedef size_t apr_size_t;
typedef struct apr_pool_t apr_pool_t;
typedef struct apr_table_t apr_table_t;
#define APR_SUCCESS 0
#define APR_INCOMPLETE 70008
#define APR_ENOENT 2
#define APR_STATUS_IS_ENOENT(s) ((s) == APR_ENOENT)
#define HTTP_NOT_MODIFIED 304
#define HTTP_METHOD_NOT_ALLOWED 405
#define M_PUT 1
#define M_DELETE 3
#define M_OPTIONS 6
#define OK 0
#define DECLINED -1
#define DONE -2
#define HTTP_OK 200
#define HTTP_BAD_REQUEST 400
#define HTTP_FORBIDDEN 403
#define HTTP_NOT_FOUND 404
#define HTTP_INTERNAL_SERVER_ERROR 500
#define M_GET 0
#define M_POST 2
typedef enum { APR_NOFILE = 0, APR_REG, APR_DIR, APR_CHR, APR_BLK, APR_PIPE, APR_LNK, APR_SOCK, APR_UNKFILE = 127 } apr_filetype_e;
#define APR_FINFO_LINK 0x00000001
#define APR_FINFO_MTIME 0x00000010
#define APR_FINFO_CTIME 0x00000020
#define APR_FINFO_ATIME 0x00000040
#define APR_FINFO_SIZE 0x00000100
#define APR_FINFO_CSIZE 0x00000200
#define APR_FINFO_DEV 0x00001000
#define APR_FINFO_INODE 0x00002000
#define APR_FINFO_NLINK 0x00004000
#define APR_FINFO_TYPE 0x00008000
#define APR_FINFO_MIN 0x00008170
#define APR_FINFO_NORM 0x0073b170
typedef struct { apr_pool_t *pool; apr_int32_t valid; int protection; apr_filetype_e filetype; apr_off_t size; apr_time_t mtime; const char *fname; const char *name; } apr_finfo_t;
typedef struct request_rec request_rec;
struct request_rec { apr_pool_t *pool; request_rec *next; request_rec *prev; request_rec *main; char *the_request; int header_only; int status; const char *method; int method_number; apr_table_t *headers_in; apr_table_t *headers_out; apr_table_t *err_headers_out; const char *content_type; const char *handler; const char *content_encoding; char *unparsed_uri; char *uri; char *filename; char *canonical_filename; char *path_info; char *args; apr_finfo_t finfo; };
typedef struct { int version; int minor_version; int module_index; const char *name; void *dynamic_load_handle; void *next; unsigned long magic; void (*rewrite_args)(void *); void *(*create_dir_config)(apr_pool_t *p, char *dir); void *(*merge_dir_config)(apr_pool_t *p, void *a, void *b); void *(*create_server_config)(apr_pool_t *p, void *s); void *(*merge_server_config)(apr_pool_t *p, void *a, void *b); const void *cmds; void (*register_hooks)(apr_pool_t *p); } module;
#define STANDARD20_MODULE_STUFF 20120211, 0, -1, __FILE__, NULL, NULL, 0x41503234UL, NULL
#define AP_MODULE_DECLARE_DATA
#define AP_DECLARE_MODULE(foo) module AP_MODULE_DECLARE_DATA foo##_module
#define APR_HOOK_REALLY_FIRST (-10)
#define APR_HOOK_FIRST 0
#define APR_HOOK_MIDDLE 10
#define APR_HOOK_LAST 20
#define APR_HOOK_REALLY_LAST 30
void *apr_palloc(apr_pool_t *p, apr_size_t n);
void *apr_pcalloc(apr_pool_t *p, apr_size_t n);
char *apr_pstrdup(apr_pool_t *p, const char *s);
char *apr_pstrndup(apr_pool_t *p, const char *s, apr_size_t n);
char *apr_psprintf(apr_pool_t *p, const char *fmt, ...);
char *apr_pstrcat(apr_pool_t *p, ...);
char *apr_strtok(char *str, const char *sep, char **last);
char *apr_collapse_spaces(char *dest, const char *src);
const char *apr_table_get(const apr_table_t *t, const char *key);
void apr_table_set(apr_table_t *t, const char *key, const char *val);
void apr_table_setn(apr_table_t *t, const char *key, const char *val);
void apr_table_mergen(apr_table_t *t, const char *key, const char *val);
void apr_table_merge(apr_table_t *t, const char *key, const char *val);
void apr_table_addn(apr_table_t *t, const char *key, const char *val);
void apr_table_unset(apr_table_t *t, const char *key);
void apr_table_add(apr_table_t *t, const char *key, const char *val);
void *apr_pmemdup(apr_pool_t *p, const void *m, apr_size_t n);
char *apr_cpystrn(char *dst, const char *src, apr_size_t size);
#define APLOG_MARK __FILE__, __LINE__, 0
#define APLOG_ERR 3
#define APLOG_WARNING 4
#define APLOG_NOTICE 5
#define APLOG_INFO 6
#define APLOG_DEBUG 7
void ap_log_rerror(const char *file, int line, int module_index, int level, apr_status_t status, const request_rec *r, const char *fmt, ...);
apr_status_t apr_stat(apr_finfo_t *finfo, const char *fname, apr_int32_t wanted, apr_pool_t *pool);
int ap_core_translate(request_rec *r);
void ap_set_content_type(request_rec *r, const char *ct);
char *ap_get_token(apr_pool_t *p, const char **accept_line, int accept_white);
int ap_find_token(apr_pool_t *p, const char *line, const char *tok);
void ap_hook_translate_name(int (*fn)(request_rec *), const char *const *pre, const char *const *succ, int order);
void ap_hook_fixups(int (*fn)(request_rec *), const char *const *pre, const char *const *succ, int order);
#ifdef __cplusplus
}
#endif
#endif

#ifndef STUB_NGX_HTTP_H
#define STUB_NGX_HTTP_H
#include "ngx_core.h"
#ifdef __cplusplus
extern "C" {
#endif
#define NGX_HTTP_MODULE 0x50545448
#define NGX_HTTP_MAIN_CONF 0x02000000
#define NGX_HTTP_SRV_CONF 0x04000000
#define NGX_HTTP_LOC_CONF 0x08000000
#define NGX_HTTP_LOC_CONF_OFFSET 16
#define NGX_HTTP_GET 0x0002
#define NGX_HTTP_HEAD 0x0004
#define NGX_HTTP_POST 0x0008
#define NGX_HTTP_PUT 0x0010
#define NGX_HTTP_DELETE 0x0020
#define NGX_HTTP_OPTIONS 0x0200
#define NGX_HTTP_OK 200
#define NGX_HTTP_BAD_REQUEST 400
#define NGX_HTTP_FORBIDDEN 403
#define NGX_HTTP_NOT_FOUND 404
#define NGX_HTTP_NOT_ALLOWED 405
#define NGX_HTTP_INTERNAL_SERVER_ERROR 500
enum { NGX_HTTP_POST_READ_PHASE = 0, NGX_HTTP_SERVER_REWRITE_PHASE, NGX_HTTP_FIND_CONFIG_PHASE, NGX_HTTP_REWRITE_PHASE, NGX_HTTP_POST_REWRITE_PHASE, NGX_HTTP_PREACCESS_PHASE, NGX_HTTP_ACCESS_PHASE, NGX_HTTP_POST_ACCESS_PHASE, NGX_HTTP_PRECONTENT_PHASE, NGX_HTTP_CONTENT_PHASE, NGX_HTTP_LOG_PHASE };
typedef struct ngx_http_request_s ngx_http_request_t;
typedef ngx_int_t (*ngx_http_handler_pt)(ngx_http_request_t *r);
typedef struct { ngx_array_t handlers; } ngx_http_phase_t;
typedef struct { ngx_http_phase_t phases[NGX_HTTP_LOG_PHASE + 1]; } ngx_http_core_main_conf_t;
typedef struct { ngx_str_t root; size_t read_ahead; off_t directio; ngx_flag_t gzip_vary; ngx_open_file_cache_t *open_file_cache; time_t open_file_cache_valid; ngx_uint_t open_file_cache_min_uses; ngx_flag_t open_file_cache_errors; ngx_flag_t open_file_cache_events; ngx_flag_t log_not_found; ngx_flag_t etag; } ngx_http_core_loc_conf_t;
typedef struct { ngx_list_t headers; ngx_table_elt_t *accept; ngx_table_elt_t *accept_encoding; ngx_table_elt_t *host; } ngx_http_headers_in_t;
typedef struct { ngx_list_t headers; ngx_list_t trailers; ngx_uint_t status; ngx_str_t status_line; ngx_table_elt_t *content_encoding; ngx_table_elt_t *etag; ngx_table_elt_t *vary; size_t content_type_len; ngx_str_t content_type; ngx_str_t charset; u_char *content_type_lowcase; ngx_uint_t content_type_hash; off_t content_length_n; off_t content_offset; time_t date_time; time_t last_modified_time; } ngx_http_headers_out_t;
typedef struct { ngx_log_t *log; } ngx_connection_t;
typedef struct { void **main_conf; void **srv_conf; void **loc_conf; } ngx_http_conf_ctx_t;
struct ngx_http_request_s {
  uint32_t signature; ngx_connection_t *connection; void **ctx; void **main_conf; void **srv_conf; void **loc_conf; ngx_pool_t *pool;
  ngx_http_headers_in_t headers_in; ngx_http_headers_out_t headers_out; ngx_uint_t method; ngx_uint_t http_version; ngx_str_t uri; ngx_str_t args; ngx_str_t exten; ngx_str_t method_name; ngx_http_request_t *main; ngx_http_request_t *parent;
  unsigned gzip_tested:1; unsigned gzip_ok:1; unsigned gzip_vary:1; unsigned header_only:1; unsigned error_page:1; unsigned root_tested:1; unsigned allow_ranges:1; unsigned internal:1; unsigned disable_not_modified:1; unsigned header_sent:1;
};
typedef struct {
  ngx_int_t (*preconfiguration)(ngx_conf_t *cf); ngx_int_t (*postconfiguration)(ngx_conf_t *cf);
  void *(*create_main_conf)(ngx_conf_t *cf); char *(*init_main_conf)(ngx_conf_t *cf, void *conf);
  void *(*create_srv_conf)(ngx_conf_t *cf); char *(*merge_srv_conf)(ngx_conf_t *cf, void *prev, void *conf);
  void *(*create_loc_conf)(ngx_conf_t *cf); char *(*merge_loc_conf)(ngx_conf_t *cf, void *prev, void *conf);
} ngx_http_module_t;
extern ngx_module_t ngx_http_core_module;
#define ngx_http_get_module_loc_conf(r, module) (r)->loc_conf[module.ctx_index]
#define ngx_http_get_module_srv_conf(r, module) (r)->srv_conf[module.ctx_index]
#define ngx_http_get_module_main_conf(r, module) (r)->main_conf[module.ctx_index]
#define ngx_http_conf_get_module_main_conf(cf, module) ((ngx_http_core_main_conf_t *) ((ngx_http_conf_ctx_t *) cf->ctx)->main_conf[module.ctx_index])
u_char *ngx_http_map_uri_to_path(ngx_http_request_t *r, ngx_str_t *name, size_t *root_length, size_t reserved);
ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t *r, ngx_http_core_loc_conf_t *clcf, ngx_str_t *path, ngx_open_file_info_t *of);
ngx_int_t ngx_http_discard_request_body(ngx_http_request_t *r);
ngx_int_t ngx_http_set_etag(ngx_http_request_t *r);
ngx_int_t ngx_http_set_content_type(ngx_http_request_t *r);
ngx_int_t ngx_http_send_header(ngx_http_request_t *r);
ngx_int_t ngx_http_output_filter(ngx_http_request_t *r, ngx_chain_t *chain);
#define ngx_http_clear_content_length(r) (r)->headers_out.content_length_n = -1
#define ngx_http_clear_accept_ranges(r) (r)->allow_ranges = 0
#ifdef __cplusplus
}
#endif
#endif

// contrib/ngx_brunsli, driven through its module interface (directives,
// configuration merging, content handler). The functions of nginx it calls are
// stand-ins that follow nginx's own implementation.
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include "h.h"
#include "contrib/ngx/ngx_http.h"

extern "C" { extern ngx_module_t ngx_http_brunsli_static_module; ngx_module_t ngx_http_core_module; }
struct ngx_pool_s { std::vector<void*> v; long fail_at = -1, n = 0; void* Get(size_t s, bool zero) { if (n++ == fail_at) return nullptr; void* p = malloc(s ? s : 1); memset(p, zero ? 0 : 0xA5, s); v.push_back(p); return p; } ~ngx_pool_s() { for (void* p : v) free(p); } };

// What the handler did.
struct Seen { std::string opened; int opens = 0, headers = 0, bodies = 0, logs = 0, bad = 0; std::string body, type; long long length = -1, mtime = -1; ngx_uint_t status = 0; bool last = false, last_chain = false, file_buf = false; std::string what; };
struct Plan { int open_err = -1; ngx_int_t header_rc = NGX_OK, body_rc = NGX_OK, discard_rc = NGX_OK; bool symlink_fail = false, etag_fail = false; };
static Seen seen; static Plan plan; static std::vector<int> fds;

extern "C" {
ngx_int_t ngx_strcasecmp(u_char* a, u_char* b) { for (;; a++, b++) { int x = ngx_tolower(*a), y = ngx_tolower(*b); if (x != y) return x - y; if (!x) return 0; } }
ngx_int_t ngx_strncasecmp(u_char* a, u_char* b, size_t n) { while (n) { int x = ngx_tolower(*a), y = ngx_tolower(*b); a++; b++; if (x == y) { if (x) { n--; continue; } return 0; } return x - y; } return 0; }
// n is the length of s2 minus one; s1 ends with a null character
u_char* ngx_strcasestrn(u_char* s1, char* s2, size_t n) {
  int c2 = ngx_tolower(*(u_char*)s2), c1; s2++;
  do { do { c1 = *s1++; if (c1 == 0) return nullptr; c1 = ngx_tolower(c1); } while (c1 != c2); } while (ngx_strncasecmp(s1, (u_char*)s2, n) != 0);
  return --s1;
}
u_char* ngx_strlcasestrn(u_char* s1, u_char* last, u_char* s2, size_t n) {
  int c2 = ngx_tolower(*s2), c1; s2++; last -= n;
  do { do { if (s1 >= last) return nullptr; c1 = *s1++; c1 = ngx_tolower(c1); } while (c1 != c2); } while (ngx_strncasecmp(s1, s2, n) != 0);
  return --s1;
}
u_char* ngx_strstrn(u_char* s1, char* s2, size_t n) { int c2 = *(u_char*)s2++, c1; do { do { c1 = *s1++; if (c1 == 0) return nullptr; } while (c1 != c2); } while (strncmp((char*)s1, s2, n) != 0); return --s1; }
u_char* ngx_strnstr(u_char* s1, char* s2, size_t len) { u_char c1, c2 = *(u_char*)s2++; size_t n = strlen(s2); do { do { if (len-- == 0) return nullptr; c1 = *s1++; if (c1 == 0) return nullptr; } while (c1 != c2); if (n > len) return nullptr; } while (strncmp((char*)s1, s2, n) != 0); return --s1; }
u_char* ngx_strlchr(u_char* p, u_char* last, u_char c) { while (p < last) { if (*p == c) return p; p++; } return nullptr; }
void* ngx_palloc(ngx_pool_t* p, size_t n) { return p->Get(n, false); }
void* ngx_pnalloc(ngx_pool_t* p, size_t n) { return p->Get(n, false); }
void* ngx_pcalloc(ngx_pool_t* p, size_t n) { return p->Get(n, true); }
ngx_int_t ngx_pfree(ngx_pool_t*, void*) { return NGX_DECLINED; }
u_char* ngx_pstrdup(ngx_pool_t* p, ngx_str_t* s) { u_char* d = (u_char*)p->Get(s->len, false); if (d) memcpy(d, s->data, s->len); return d; }
void ngx_stub_log(ngx_uint_t level, ngx_log_t* log, ngx_err_t, const char* fmt, ...) {
  if (!log || !fmt) { seen.bad++; seen.what = "log"; return; }
  va_list a; va_start(a, fmt); seen.logs++;
  for (const char* p = fmt; *p; ++p) if (*p == '%') { ++p; if (*p == 's') { const char* s = va_arg(a, const char*); volatile size_t n = s ? strlen(s) : (seen.bad++, 0); (void)n; } else if (*p == 'V') { ngx_str_t* s = va_arg(a, ngx_str_t*); volatile u_char x = 0; for (size_t i = 0; i < s->len; ++i) x ^= s->data[i]; } else if (*p == 'd' || *p == 'i' || *p == 'u') { va_arg(a, int); } else break; }
  va_end(a);
}
void* ngx_array_push(ngx_array_t* a) {
  if (a->nelts == a->nalloc) { void* n = a->pool->Get(2 * a->nalloc * a->size, false); if (!n) return nullptr; memcpy(n, a->elts, a->nelts * a->size); a->elts = n; a->nalloc *= 2; }
  return (char*)a->elts + a->size * a->nelts++;
}
void* ngx_list_push(ngx_list_t* l) {
  ngx_list_part_t* last = l->last;
  if (last->nelts == l->nalloc) { last = (ngx_list_part_t*)l->pool->Get(sizeof *last, false); if (!last) return nullptr; last->elts = l->pool->Get(l->nalloc * l->size, false); if (!last->elts) return nullptr; last->nelts = 0; last->next = nullptr; l->last->next = last; l->last = last; }
  return (char*)last->elts + l->size * last->nelts++;
}
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t*, ngx_str_t* name, ngx_open_file_info_t* of, ngx_pool_t*) {
  seen.opens++; seen.opened.assign((char*)name->data, name->len);
  if (strlen((char*)name->data) != name->len) { seen.bad++; seen.what = "path not terminated"; }
  of->fd = -1; of->err = 0; if (plan.open_err >= 0) { of->err = plan.open_err; of->failed = "open()"; return NGX_ERROR; }
  int fd = open((char*)name->data, O_RDONLY | O_NONBLOCK); if (fd < 0) { of->err = errno; of->failed = "open()"; return NGX_ERROR; }
  struct stat s; fstat(fd, &s); of->size = s.st_size; of->mtime = s.st_mtime; of->uniq = s.st_ino; of->is_dir = S_ISDIR(s.st_mode); of->is_file = S_ISREG(s.st_mode);
  if (of->is_dir) { close(fd); of->fd = NGX_INVALID_FILE; } else { of->fd = fd; fds.push_back(fd); }
  return NGX_OK;
}
char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  ngx_uint_t* np = (ngx_uint_t*)((char*)conf + cmd->offset); if (*np != NGX_CONF_UNSET_UINT) return (char*)"is duplicate";
  ngx_str_t* value = (ngx_str_t*)cf->args->elts; ngx_conf_enum_t* e = (ngx_conf_enum_t*)cmd->post;
  for (ngx_uint_t i = 0; e[i].name.len != 0; i++) { if (e[i].name.len != value[1].len || ngx_strcasecmp(e[i].name.data, value[1].data) != 0) continue; *np = e[i].value; return NGX_CONF_OK; }
  return NGX_CONF_ERROR;
}
char* ngx_conf_set_flag_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  ngx_flag_t* fp = (ngx_flag_t*)((char*)conf + cmd->offset); if (*fp != NGX_CONF_UNSET) return (char*)"is duplicate"; ngx_str_t* v = (ngx_str_t*)cf->args->elts;
  if (!ngx_strcasecmp(v[1].data, (u_char*)"on")) *fp = 1; else if (!ngx_strcasecmp(v[1].data, (u_char*)"off")) *fp = 0; else return NGX_CONF_ERROR; return NGX_CONF_OK;
}
u_char* ngx_http_map_uri_to_path(ngx_http_request_t* r, ngx_str_t* path, size_t* root_length, size_t reserved) {
  ngx_http_core_loc_conf_t* c = (ngx_http_core_loc_conf_t*)r->loc_conf[ngx_http_core_module.ctx_index];
  path->len = c->root.len + reserved + r->uri.len + 1; path->data = (u_char*)ngx_pnalloc(r->pool, path->len); if (!path->data) return nullptr;
  u_char* last = path->data; memcpy(last, c->root.data, c->root.len); last += c->root.len; *root_length = c->root.len; memcpy(last, r->uri.data, r->uri.len); last += r->uri.len; *last = 0; return last;
}
ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t*, ngx_http_core_loc_conf_t*, ngx_str_t*, ngx_open_file_info_t*) { return plan.symlink_fail ? NGX_ERROR : NGX_OK; }
ngx_int_t ngx_http_discard_request_body(ngx_http_request_t*) { return plan.discard_rc; }
ngx_int_t ngx_http_set_etag(ngx_http_request_t*) { return plan.etag_fail ? NGX_ERROR : NGX_OK; }
ngx_int_t ngx_http_set_content_type(ngx_http_request_t* r) { ngx_str_set(&r->headers_out.content_type, "image/jpeg"); r->headers_out.content_type_len = r->headers_out.content_type.len; return NGX_OK; }
ngx_int_t ngx_http_send_header(ngx_http_request_t* r) {
  seen.headers++; seen.status = r->headers_out.status; seen.type.assign((char*)r->headers_out.content_type.data, r->headers_out.content_type.len); seen.length = r->headers_out.content_length_n; seen.mtime = r->headers_out.last_modified_time;
  for (ngx_list_part_t* p = &r->headers_out.headers.part; p; p = p->next) for (ngx_uint_t i = 0; i < p->nelts; ++i) { ngx_table_elt_t* h = (ngx_table_elt_t*)p->elts + i; if (h->hash == 0) continue; std::string k((char*)h->key.data, h->key.len), v((char*)h->value.data, h->value.len); if (!strcasecmp(k.c_str(), "content-encoding") && strcasecmp(v.c_str(), "identity")) { seen.bad++; seen.what = "content encoding " + v; } }
  if (r->method == NGX_HTTP_HEAD) r->header_only = 1; r->header_sent = 1; return plan.header_rc;
}
ngx_int_t ngx_http_output_filter(ngx_http_request_t*, ngx_chain_t* ch) {
  seen.bodies++; seen.last = seen.last_chain = false;
  for (; ch; ch = ch->next) { ngx_buf_t* b = ch->buf; seen.last = b->last_buf; seen.last_chain = b->last_in_chain;
    if (b->in_file) { seen.file_buf = true; std::string s(b->file_last - b->file_pos, 0); ssize_t n = pread(b->file->fd, &s[0], s.size(), b->file_pos); s.resize(n < 0 ? 0 : n); seen.body += s; if (!b->file->log || std::string((char*)b->file->name.data, b->file->name.len) != seen.opened) { seen.bad++; seen.what = "file name of the buffer"; } }
    else if (b->memory || b->temporary) seen.body.append((char*)b->pos, b->last - b->pos); }
  return plan.body_rc;
}
}

static std::string Lower(std::string s) { for (auto& c : s) c = ngx_tolower(c); return s; }
// A list of media ranges as clients send them, and whether it names image/x-j.
static std::string AcceptHeader(Rng* r, bool* lists) {
  static const char* other[] = {"image/webp", "*/*", "image/*", "image/x-jpeg", "image/x-jng", "ximage/x-j", "image/x", "x-j", "text/html", "application/xhtml+xml", "image/x-j2", "image/x-ja", "image/avif", "i", "image", "image/x-J-foo", "a-image/x-j", "image/apng"};
  std::string s; *lists = false; int n = r->P(0.1) ? 1 : 1 + r->U(6); const char* sep = r->P(0.5) ? "," : r->P(0.7) ? ", " : " , ";
  for (int i = 0; i < n; ++i) {
    std::string t; if (r->P(0.3)) { t = r->P(0.8) ? "image/x-j" : r->P(0.5) ? "Image/X-J" : "IMAGE/x-j"; *lists = true; } else t = other[r->U(sizeof other / sizeof *other)];
    if (r->P(0.3)) { t += r->P(0.7) ? ";" : " ; "; t += r->P(0.7) ? "q=0." + std::to_string(1 + r->U(9)) : "level=1;q=1"; }
    s += (i ? sep : "") + t;
  }
  if (r->P(0.05)) s = " " + s; if (r->P(0.05)) s += " ";
  return s;
}
PROPERTY(N01) {
  static std::string root = c.scratch + "/www_" + std::to_string(c.shard); mkdir(root.c_str(), 0755);
  std::vector<std::string> names = {"a.jpg", "b.jpg", "empty.jpg", "x/c.jpg", "long" + std::string(120, 'n') + ".jpeg"}; std::map<std::string, std::string> content; Rng fr(c.seed * 31 + 5);
  mkdir((root + "/x").c_str(), 0755); mkdir((root + "/dir.jpg.j").c_str(), 0755); mkfifo((root + "/fifo.jpg.j").c_str(), 0644);
  auto put = [&](const std::string& n, const std::string& b) { FILE* f = fopen((root + "/" + n).c_str(), "wb"); if (!f) _exit(3); fwrite(b.data(), 1, b.size(), f); fclose(f); };
  for (auto& n : names) { std::string b(n == "empty.jpg" ? 0 : 1 + fr.U(5000), 0); for (auto& x : b) x = fr.U(256); content[n] = b; put(n + ".j", b); put(n, "JPEG"); }
  put("only.jpg", "JPEG"); names.push_back("only.jpg"); names.push_back("missing.jpg"); names.push_back("dir.jpg"); names.push_back("fifo.jpg"); names.push_back("a.jpg.j"); names.push_back("x/");
  ngx_http_core_module.ctx_index = 0; ngx_http_brunsli_static_module.ctx_index = 1;
  ngx_http_module_t* m = (ngx_http_module_t*)ngx_http_brunsli_static_module.ctx; if (ngx_http_brunsli_static_module.type != NGX_HTTP_MODULE || !m->create_loc_conf) _exit(3);
  c.Cases([&](long idx, Rng& r) {
    c.evaluations++; seen = Seen(); plan = Plan(); ngx_pool_t pool;
    // configuration: one handler is registered, levels are merged
    ngx_http_core_main_conf_t cmcf; memset(&cmcf, 0, sizeof cmcf); for (auto& p : cmcf.phases) { p.handlers.pool = &pool; p.handlers.size = sizeof(ngx_http_handler_pt); p.handlers.nalloc = 1; p.handlers.elts = pool.Get(sizeof(ngx_http_handler_pt), false); }
    void* mains[2] = {&cmcf, nullptr}; ngx_http_conf_ctx_t cc = {mains, nullptr, nullptr}; ngx_log_t log = {0, nullptr, nullptr}; ngx_str_t args[2]; ngx_array_t aa = {args, 2, sizeof(ngx_str_t), 2, &pool}; ngx_conf_t cf = {nullptr, &aa, &pool, &log, &cc};
    if (m->preconfiguration && m->preconfiguration(&cf) != NGX_OK) { c.Violation("configuration-failed", "preconfiguration"); return; }
    if (r.P(0.03)) { pool.fail_at = pool.n; void* q = m->create_loc_conf(&cf); if (q && q != NGX_CONF_ERROR) c.Violation("allocation-failure-ignored", "create_loc_conf"); pool.fail_at = -1; c.Ev("config-allocation-failures"); }
    void* level[2]; int set[2]; static const char* words[] = {"off", "on", "always"};
    for (int k = 0; k < 2; ++k) {
      level[k] = m->create_loc_conf(&cf); set[k] = r.P(0.3) ? -1 : r.P(0.2) ? 0 : r.P(0.7) ? 1 : 2; if (!level[k]) { c.Violation("configuration-failed", "create_loc_conf"); return; }
      ngx_command_t* cmd = ngx_http_brunsli_static_module.commands; while (cmd->name.len && std::string((char*)cmd->name.data, cmd->name.len) != "brunsli_static") cmd++;
      if (!cmd->name.len) { c.Violation("directive-missing", ""); return; }
      std::string dn = "brunsli_static"; args[0].data = (u_char*)&dn[0]; args[0].len = dn.size();
      if (set[k] >= 0) { std::string w = words[set[k]]; args[1].data = (u_char*)&w[0]; args[1].len = w.size(); if (cmd->set(&cf, cmd, level[k]) != NGX_CONF_OK) c.Violation("directive-refused", w);
        if (r.P(0.1) && cmd->set(&cf, cmd, level[k]) == NGX_CONF_OK) c.Violation("duplicate-directive-accepted", w); }
      else if (r.P(0.2)) { std::string w = r.P(0.5) ? "yes" : "onn"; args[1].data = (u_char*)&w[0]; args[1].len = w.size(); if (cmd->set(&cf, cmd, level[k]) == NGX_CONF_OK) c.Violation("bad-directive-accepted", w); }
    }
    if (m->merge_loc_conf && m->merge_loc_conf(&cf, level[0], level[1]) != NGX_CONF_OK) c.Violation("configuration-failed", "merge");
    int eff = set[1] >= 0 ? set[1] : set[0] >= 0 ? set[0] : 0;
    if (!m->postconfiguration || m->postconfiguration(&cf) != NGX_OK) { c.Violation("configuration-failed", "postconfiguration"); return; }
    ngx_http_handler_pt handler = nullptr; int handlers = 0; for (auto& p : cmcf.phases) for (ngx_uint_t i = 0; i < p.handlers.nelts; ++i) { handler = ((ngx_http_handler_pt*)p.handlers.elts)[i]; handlers++; }
    if (handlers != 1 || cmcf.phases[NGX_HTTP_CONTENT_PHASE].handlers.nelts != 1) { c.Violation("handler-not-registered", std::to_string(handlers)); return; }
    // request
    ngx_http_core_loc_conf_t core; memset(&core, 0, sizeof core); core.root.data = (u_char*)&root[0]; core.root.len = root.size(); core.gzip_vary = r.P(0.5); void* locs[2] = {&core, level[1]};
    ngx_connection_t conn = {&log}; ngx_http_request_t q, parent; memset(&q, 0, sizeof q); memset(&parent, 0, sizeof parent); q.connection = &conn; q.loc_conf = locs; q.main_conf = mains; q.pool = &pool; bool sub = r.P(0.1); q.main = sub ? &parent : &q; if (sub) q.parent = &parent;
    static const int methods[] = {NGX_HTTP_GET, NGX_HTTP_HEAD, NGX_HTTP_POST, NGX_HTTP_PUT, NGX_HTTP_DELETE, NGX_HTTP_OPTIONS}; int mi = r.P(0.6) ? 0 : r.P(0.5) ? 1 : r.U(6); q.method = methods[mi]; bool get = mi < 2;
    std::string name = names[r.P(0.5) ? r.U(5) : r.U(names.size())], uri = "/" + name; std::string ubuf = uri; ubuf.push_back('H'); GuardBuf ub(ubuf.size()); memcpy(ub.p, ubuf.data(), ubuf.size()); q.uri.data = ub.p; q.uri.len = uri.size();  // nginx's uri is not terminated
    bool have = r.P(0.9), lists = false, malformed = r.P(0.1); std::string acc = AcceptHeader(&r, &lists);
    if (malformed) { int n = r.U(12); acc.clear(); for (int i = 0; i < n; ++i) acc += r.P(0.4) ? std::string("image/x-j") : std::string(1, ",; qijx-/="[r.U(11)]); }
    ngx_table_elt_t ae; memset(&ae, 0, sizeof ae); GuardBuf ab(acc.size() + 1); memcpy(ab.p, acc.c_str(), acc.size() + 1); ae.value.data = ab.p; ae.value.len = acc.size(); ae.hash = 1; ngx_str_set(&ae.key, "Accept"); if (have) q.headers_in.accept = &ae;
    q.headers_out.content_length_n = -1; q.headers_out.last_modified_time = -1; q.headers_out.headers.pool = &pool; q.headers_out.headers.size = sizeof(ngx_table_elt_t); q.headers_out.headers.nalloc = 1 + r.U(3); q.headers_out.headers.last = &q.headers_out.headers.part; q.headers_out.headers.part.elts = pool.Get(q.headers_out.headers.nalloc * sizeof(ngx_table_elt_t), false);
    int fault = r.P(0.75) ? 0 : 1 + r.U(7); static const int errs[] = {ENOENT, ENOTDIR, ENAMETOOLONG, EACCES, EMLINK, ELOOP, EIO, EMFILE, 0};
    if (fault == 1) pool.fail_at = pool.n + r.U(5); else if (fault == 2) plan.open_err = errs[r.U(9)]; else if (fault == 3) plan.header_rc = r.P(0.5) ? NGX_ERROR : NGX_HTTP_NOT_FOUND; else if (fault == 4) plan.discard_rc = NGX_HTTP_INTERNAL_SERVER_ERROR; else if (fault == 5) plan.symlink_fail = true; else if (fault == 6) plan.etag_fail = true; else if (fault == 7) plan.body_rc = r.P(0.5) ? NGX_ERROR : NGX_AGAIN;
    std::string d = std::string(words[eff]) + " " + (mi == 0 ? "GET " : mi == 1 ? "HEAD " : "other ") + name + (have ? " accept '" + acc + "'" : " no accept") + (sub ? " subrequest" : "") + " fault " + std::to_string(fault) + (core.gzip_vary ? " vary" : "");
    c.Input(d); c.Nontrivial(HashStr(d)); c.Step("handler"); ngx_int_t rc = handler(&q); c.Step("check");
    long failed = pool.fail_at >= 0 && pool.n > pool.fail_at; for (int fd : fds) close(fd); fds.clear();
    bool exists = content.count(name), nego = have && lists && !sub; bool want = get && uri.back() != '/' && eff && (eff == 2 || nego) && exists;
    bool served = seen.headers > 0; c.Ev(served ? "served" : rc == NGX_DECLINED ? "declined" : "error-" + std::to_string((long)rc)); c.Ev(std::string("mode-") + words[eff]); if (fault) c.Ev("fault-" + std::to_string(fault));
    if (seen.bad) c.Violation("interface-misused", seen.what + ": " + d);
    if (seen.opens && seen.opened != root + uri + ".j") c.Violation("other-file-opened", seen.opened + ": " + d);
    if (malformed && have) { c.Ev("malformed-accept"); if (served && eff == 1 && Lower(acc).find("image/x-j") == std::string::npos) c.Violation("served-without-being-accepted", d); if (eff == 1 && get) return; want = get && uri.back() != '/' && eff == 2 && exists; }
    if (fault == 0) {
      if (want != served) c.Violation(want ? "not-served" : "served-unexpectedly", d);
      if (!want && rc != NGX_DECLINED && !(name == "fifo.jpg" && rc == NGX_HTTP_NOT_FOUND)) c.Violation("refusal-without-declining", std::to_string((long)rc) + ": " + d);
      if (want && rc != NGX_OK) c.Violation("served-but-failed", std::to_string((long)rc) + ": " + d);
    } else {
      if (served && !want) c.Violation("served-unexpectedly", d);
      if (failed && want && rc != NGX_HTTP_INTERNAL_SERVER_ERROR && rc != NGX_ERROR) c.Violation("allocation-failure-ignored", d);
      if ((fault == 5 || fault == 6) && want && (served || rc != NGX_HTTP_INTERNAL_SERVER_ERROR)) c.Violation("failure-ignored", d);
      if (fault == 4 && want && (served || rc != plan.discard_rc)) c.Violation("failure-ignored", d);
      if (fault == 3 && want && (seen.bodies || rc != plan.header_rc)) c.Violation("failure-ignored", d);
      if (fault == 7 && want && mi == 0 && rc != plan.body_rc) c.Violation("failure-ignored", d);
      if (fault == 2 && want && (served || (plan.open_err ? rc != NGX_DECLINED : rc != NGX_HTTP_INTERNAL_SERVER_ERROR))) c.Violation("failure-ignored", d);
    }
    if (seen.headers > 1 || seen.bodies > 1) c.Violation("answered-twice", d);
    if (seen.bodies && !seen.headers) c.Violation("body-without-header", d);
    if (served) {
      auto& b = content[name];
      if (seen.status != 200 || seen.type != "image/x-j") c.Violation("wrong-response-header", std::to_string(seen.status) + " " + seen.type + ": " + d);
      if (seen.length != (long long)b.size()) c.Violation("wrong-content-length", d);
      struct stat st; stat((root + uri + ".j").c_str(), &st); if (seen.mtime != st.st_mtime) c.Violation("wrong-modification-time", d);
      if (mi == 1 ? seen.bodies : plan.header_rc == NGX_OK && !seen.bodies) c.Violation(mi == 1 ? "body-for-head" : "no-body", d);
      if (seen.bodies && seen.body != b) c.Violation("wrong-body", d);
      if (seen.bodies && (seen.last != !sub || !seen.last_chain)) c.Violation("wrong-end-of-response", d);
      if (eff == 1 && (q.gzip_ok || !q.gzip_tested)) c.Violation("may-be-compressed-again", d);
    }
    if (!failed && fault != 5 && fault != 2 && get && uri.back() != '/' && eff == 1 && exists && (nego || core.gzip_vary) && !malformed && !q.gzip_vary) c.Violation("variant-not-announced", d);
    c.Sample(d + " -> " + (served ? "served" : "rc " + std::to_string((long)rc)));
  });
}

// contrib/mod_brunsli, driven through its module interface (the hook it
// registers). The functions of Apache and APR it calls are stand-ins that
// follow their implementation.
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>
#include "h.h"
#include "contrib/apache/httpd.h"

extern "C" { extern module brunsli_module; }
struct apr_pool_t { std::vector<void*> v; void* Get(size_t n) { void* p = malloc(n ? n : 1); memset(p, 0xA5, n); v.push_back(p); return p; } ~apr_pool_t() { for (void* p : v) free(p); } };
struct apr_table_t { std::vector<std::pair<std::string, std::string>> v; };
struct Seen { int translated = 0, typed = 0, stats = 0; std::string type, stat_name; };
static Seen seen; static int core_rc = OK; static bool core_null = false; static int stat_err = 0; static std::string root;
static std::vector<int (*)(request_rec*)> translate, other;

extern "C" {
void* apr_palloc(apr_pool_t* p, apr_size_t n) { return p->Get(n); }
void* apr_pcalloc(apr_pool_t* p, apr_size_t n) { void* x = p->Get(n); memset(x, 0, n); return x; }
char* apr_pstrdup(apr_pool_t* p, const char* s) { if (!s) return nullptr; size_t n = strlen(s) + 1; return (char*)memcpy(p->Get(n), s, n); }
char* apr_pstrndup(apr_pool_t* p, const char* s, apr_size_t n) { if (!s) return nullptr; n = strnlen(s, n); char* d = (char*)p->Get(n + 1); memcpy(d, s, n); d[n] = 0; return d; }
char* apr_psprintf(apr_pool_t* p, const char* fmt, ...) { va_list a, b; va_start(a, fmt); va_copy(b, a); int n = vsnprintf(nullptr, 0, fmt, a); char* d = (char*)p->Get(n + 1); vsnprintf(d, n + 1, fmt, b); va_end(a); va_end(b); return d; }
char* apr_pstrcat(apr_pool_t* p, ...) { std::string s; va_list a; va_start(a, p); while (const char* x = va_arg(a, const char*)) s += x; va_end(a); return apr_pstrdup(p, s.c_str()); }
char* apr_strtok(char* str, const char* sep, char** last) {
  if (!str) str = *last; if (!str) return nullptr;
  while (*str && strchr(sep, *str)) ++str; if (!*str) { *last = nullptr; return nullptr; }
  char* token = str; *last = token + 1; while (**last && !strchr(sep, **last)) ++*last; if (**last) { **last = 0; ++*last; }
  return token;
}
char* apr_collapse_spaces(char* dest, const char* src) { while (*src) { if (!isspace((unsigned char)*src)) *dest++ = *src; ++src; } *dest = 0; return dest; }
const char* apr_table_get(const apr_table_t* t, const char* k) { for (auto& p : t->v) if (!strcasecmp(p.first.c_str(), k)) return p.second.c_str(); return nullptr; }
void apr_table_set(apr_table_t* t, const char* k, const char* v) { for (auto& p : t->v) if (!strcasecmp(p.first.c_str(), k)) { p.second = v; return; } t->v.push_back({k, v}); }
void apr_table_setn(apr_table_t* t, const char* k, const char* v) { apr_table_set(t, k, v); }
void apr_table_merge(apr_table_t* t, const char* k, const char* v) { for (auto& p : t->v) if (!strcasecmp(p.first.c_str(), k)) { p.second += std::string(", ") + v; return; } t->v.push_back({k, v}); }
void apr_table_mergen(apr_table_t* t, const char* k, const char* v) { apr_table_merge(t, k, v); }
void apr_table_add(apr_table_t* t, const char* k, const char* v) { t->v.push_back({k, v}); }
void apr_table_unset(apr_table_t* t, const char* k) { for (size_t i = t->v.size(); i--;) if (!strcasecmp(t->v[i].first.c_str(), k)) t->v.erase(t->v.begin() + i); }
void* apr_pmemdup(apr_pool_t* p, const void* m, apr_size_t n) { return m ? memcpy(p->Get(n), m, n) : nullptr; }
char* apr_cpystrn(char* d, const char* s, apr_size_t n) { if (!n) return d; size_t k = s ? strnlen(s, n - 1) : 0; if (k) memcpy(d, s, k); d[k] = 0; return d + k; }
void ap_log_rerror(const char*, int, int, int, apr_status_t, const request_rec*, const char*, ...) {}
void apr_table_addn(apr_table_t* t, const char* k, const char* v) { t->v.push_back({k, v}); }
apr_status_t apr_stat(apr_finfo_t* f, const char* name, apr_int32_t, apr_pool_t* pool) {
  seen.stats++; seen.stat_name = name; if (stat_err) return stat_err; struct stat s; if (stat(name, &s)) return errno;
  memset(f, 0, sizeof *f); f->pool = pool; f->valid = APR_FINFO_MIN; f->filetype = S_ISREG(s.st_mode) ? APR_REG : S_ISDIR(s.st_mode) ? APR_DIR : S_ISFIFO(s.st_mode) ? APR_PIPE : APR_UNKFILE; f->size = s.st_size; f->fname = name; return APR_SUCCESS;
}
int ap_core_translate(request_rec* r) { seen.translated++; if (core_rc != OK) return core_rc; if (core_null) { r->filename = nullptr; return OK; } std::string f = root + r->uri; r->filename = apr_pstrdup(r->pool, f.c_str()); return OK; }
void ap_set_content_type(request_rec* r, const char* ct) { seen.typed++; seen.type = ct ? ct : ""; r->content_type = ct; }
char* ap_get_token(apr_pool_t* p, const char** line, int white) { const char* s = *line; while (isspace((unsigned char)*s)) ++s; const char* e = s; while (*e && (white || !isspace((unsigned char)*e)) && *e != ';' && *e != ',') ++e; char* t = apr_pstrndup(p, s, e - s); for (size_t n = strlen(t); n && isspace((unsigned char)t[n - 1]);) t[--n] = 0; *line = e; return t; }
int ap_find_token(apr_pool_t* p, const char* line, const char* tok) { if (!line) return 0; const char* s = line; for (;;) { while (*s && (isspace((unsigned char)*s) || *s == ',')) ++s; if (!*s) return 0; const char* b = s; while (*s && !isspace((unsigned char)*s) && *s != ',' && *s != ';') ++s; if ((size_t)(s - b) == strlen(tok) && !strncasecmp(b, tok, s - b)) return 1; if (!*s) return 0; ++s; } }
void ap_hook_translate_name(int (*fn)(request_rec*), const char* const*, const char* const*, int) { translate.push_back(fn); }
void ap_hook_fixups(int (*fn)(request_rec*), const char* const*, const char* const*, int) { other.push_back(fn); }
}
PROPERTY(N02) {
  root = c.scratch + "/www_" + std::to_string(c.shard); mkdir(root.c_str(), 0755); mkdir((root + "/x").c_str(), 0755); mkdir((root + "/dir.jpg.j").c_str(), 0755);
  std::vector<std::string> names = {"a.jpg", "empty.jpg", "x/c.jpeg", "long" + std::string(150, 'n') + ".jpeg", "percent%s%n.jpg"}; size_t ngood = names.size();
  for (auto& n : names) { for (const char* e : {"", ".j"}) { FILE* f = fopen((root + "/" + n + e).c_str(), "wb"); if (!f) _exit(3); if (n != "empty.jpg") fputs("data", f); fclose(f); } }
  names.push_back("only.jpg"); names.push_back("missing.jpg"); names.push_back("dir.jpg"); names.push_back("a.jpg.j"); names.push_back("x/"); names.push_back("none/a.jpg");
  if (!brunsli_module.register_hooks) _exit(3);
  { apr_pool_t p; brunsli_module.register_hooks(&p); } if (translate.size() != 1) { c.cur = -1; c.Violation("hook-not-registered", std::to_string(translate.size())); if (translate.empty()) return; }
  c.Cases([&](long idx, Rng& r) {
    c.evaluations++; seen = Seen(); core_rc = OK; core_null = false; stat_err = 0; apr_pool_t pool; apr_table_t in, out, err; request_rec q; memset(&q, 0, sizeof q); q.pool = &pool; q.headers_in = &in; q.headers_out = &out; q.err_headers_out = &err; q.method = "GET"; q.method_number = M_GET;
    size_t k = r.P(0.6) ? r.U(ngood) : r.U(names.size()); std::string uri = "/" + names[k]; q.uri = apr_pstrdup(&pool, uri.c_str());
    static const char* other[] = {"image/webp", "*/*", "image/*", "image/x-jpeg", "image/x-jng", "ximage/x-j", "image/x", "x-j", "text/html", "image/x-j2", "image/avif", "i", "image/x-j-foo"};
    bool have = r.P(0.9), lists = false, malformed = r.P(0.25); std::string acc; int n = r.P(0.1) ? 1 : 1 + r.U(6); const char* sep = r.P(0.5) ? "," : r.P(0.7) ? ", " : " , ";
    for (int i = 0; i < n; ++i) { std::string t; if (r.P(0.3)) { t = "image/x-j"; lists = true; } else t = other[r.U(sizeof other / sizeof *other)]; if (r.P(0.3)) { t += r.P(0.7) ? ";" : " ; "; t += r.P(0.7) ? "q=0." + std::to_string(1 + r.U(9)) : "level=1;q=1"; } acc += (i ? sep : "") + t; }
    if (malformed) { int m = r.U(12); acc.clear(); for (int i = 0; i < m; ++i) acc += r.P(0.3) ? std::string("image/x-j") : std::string(1, ",;;, qijx-/=\t"[r.U(13)]); }
    if (have) in.v.push_back({r.P(0.5) ? "Accept" : "accept", acc}); if (r.P(0.3)) in.v.push_back({"Accept-Encoding", "image/x-j"}); std::string hdr = acc;
    int fault = r.P(0.8) ? 0 : 1 + r.U(6); if (fault == 1 || fault == 5) core_rc = r.P(0.5) ? HTTP_FORBIDDEN : DECLINED; else if (fault == 2 || fault == 6) core_null = true; else if (fault == 3) stat_err = r.P(0.5) ? APR_INCOMPLETE : 13; else if (fault == 4) q.filename = apr_pstrdup(&pool, "/elsewhere");
    // another module named an existing file before the core refuses
    if (fault >= 5) { std::string f = r.P(0.7) ? root + uri : root + "/" + names[0]; q.filename = apr_pstrdup(&pool, f.c_str()); }
    std::string d = names[k] + (have ? " accept '" + acc + "'" : " no accept") + " fault " + std::to_string(fault); c.Input(d); c.Nontrivial(HashStr(d)); c.Step("hook");
    int rc = translate[0](&q); c.Step("check"); bool exists = k < ngood; bool want = have && lists && exists && (fault == 0 || fault == 4), served = rc == OK;
    std::string want_name = root + uri + ".j"; c.Ev(served ? "served" : rc == DECLINED ? "declined" : "other-" + std::to_string(rc)); if (fault) c.Ev("fault-" + std::to_string(fault));
    if (have && in.v[0].second != hdr) c.Violation("request-header-modified", d);
    if (!have || !malformed) { if (want != served) c.Violation(want ? "not-served" : "served-unexpectedly", d); }
    else { c.Ev("malformed-accept"); if (served && (acc.find("image/x-j") == std::string::npos && acc.find("x-j") == std::string::npos || !exists || (fault && fault != 4))) c.Violation("served-unexpectedly", d); }
    if (!served && rc != DECLINED) c.Violation("refusal-without-declining", std::to_string(rc) + ": " + d);
    if (served) { if (!q.filename || q.filename != want_name) c.Violation("wrong-file", std::string(q.filename ? q.filename : "(null)") + ": " + d); if (!q.content_type || strcmp(q.content_type, "image/x-j")) c.Violation("wrong-content-type", d); }
    else { if (seen.typed) c.Violation("type-set-though-declined", d); if (q.filename && q.filename == want_name) c.Violation("file-changed-though-declined", d); }
    c.Sample(d + " -> " + (served ? "served" : "rc " + std::to_string(rc)));
  });
}

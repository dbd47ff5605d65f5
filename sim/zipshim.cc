// The boundary to the installed libzip. The library under test calls libzip through these wrappers, so that memory and
// descriptors libzip holds internally are told from those the library itself obtained, and the life of every archive
// handle, member handle and source can be followed. (libzip leaks memory of its own when an allocation fails inside it;
// that is not charged to the code under test. An archive the code under test forgets to close or discard is.)
#include "internal.h"
#include <zip.h>
#include <set>
namespace sim {
static std::set<void *> *g_zips, *g_zfiles, *g_srcs;
struct InZip { InZip() { if (cur) cur->zip++; } ~InZip() { if (cur) cur->zip--; } };
static std::set<void *> &set_of(std::set<void *> *&s) { if (!s) s = new std::set<void *>; return *s; }
static void *add(std::set<void *> *&s, void *p) { HarnessScope h; if (p) set_of(s).insert(p); return p; }
static void need(std::set<void *> *&s, void *p, const char *fn, const char *what) { HarnessScope h; if (!set_of(s).count(p)) violation("bad-handle", "%s on %s that is not open", fn, what); }
static void drop(std::set<void *> *&s, void *p) { HarnessScope h; set_of(s).erase(p); }
int zip_handles() { return (int)((g_zips ? g_zips->size() : 0) + (g_zfiles ? g_zfiles->size() : 0) + (g_srcs ? g_srcs->size() : 0)); }
std::string zip_handles_desc() { char b[160]; if (!zip_handles()) return ""; snprintf(b, sizeof b, "%zu open archives, %zu open members, %zu sources; ", g_zips ? g_zips->size() : 0, g_zfiles ? g_zfiles->size() : 0, g_srcs ? g_srcs->size() : 0); return b; }
}
using namespace sim;
#define Z(z, fn) need(g_zips, z, fn, "an archive")
extern "C" {
zip_t *sim_zip_open(const char *n, int fl, int *e) { zip_t *z; { InZip i; z = zip_open(n, fl, e); } add(g_zips, z); return z; }
zip_t *sim_zip_open_from_source(zip_source_t *s, int fl, zip_error_t *e) { zip_t *z; { InZip i; z = zip_open_from_source(s, fl, e); } add(g_zips, z); if (z) drop(g_srcs, s); return z; }
zip_t *sim_zip_fdopen(int fd, int fl, int *e) { zip_t *z; { InZip i; z = zip_fdopen(fd, fl, e); } add(g_zips, z); return z; }
int sim_zip_close(zip_t *z) { if (!z) return -1; Z(z, "zip_close"); int r; { InZip i; r = zip_close(z); } if (r == 0) drop(g_zips, z); return r; }
void sim_zip_discard(zip_t *z) { if (!z) return; Z(z, "zip_discard"); { InZip i; zip_discard(z); } drop(g_zips, z); }
zip_file_t *sim_zip_fopen_index(zip_t *z, zip_uint64_t n, zip_flags_t f) { Z(z, "zip_fopen_index"); zip_file_t *r; { InZip i; r = zip_fopen_index(z, n, f); } add(g_zfiles, r); return r; }
zip_file_t *sim_zip_fopen(zip_t *z, const char *n, zip_flags_t f) { Z(z, "zip_fopen"); zip_file_t *r; { InZip i; r = zip_fopen(z, n, f); } add(g_zfiles, r); return r; }
int sim_zip_fclose(zip_file_t *f) { need(g_zfiles, f, "zip_fclose", "a member"); drop(g_zfiles, f); InZip i; return zip_fclose(f); }
zip_int64_t sim_zip_fread(zip_file_t *f, void *b, zip_uint64_t n) { if (f) need(g_zfiles, f, "zip_fread", "a member"); zip_int64_t r; { InZip i; r = zip_fread(f, b, n); } if (r > 0) harness_write(b, (size_t)r); return r; }
zip_int8_t sim_zip_fseek(zip_file_t *f, zip_int64_t o, int w) { InZip i; return zip_fseek(f, o, w); }
zip_int64_t sim_zip_ftell(zip_file_t *f) { InZip i; return zip_ftell(f); }
zip_int64_t sim_zip_get_num_entries(zip_t *z, zip_flags_t f) { if (z) Z(z, "zip_get_num_entries"); InZip i; return zip_get_num_entries(z, f); }
const char *sim_zip_get_name(zip_t *z, zip_uint64_t n, zip_flags_t f) { Z(z, "zip_get_name"); InZip i; return zip_get_name(z, n, f); }
zip_int64_t sim_zip_name_locate(zip_t *z, const char *n, zip_flags_t f) { Z(z, "zip_name_locate"); InZip i; return zip_name_locate(z, n, f); }
int sim_zip_stat(zip_t *z, const char *n, zip_flags_t f, zip_stat_t *s) { Z(z, "zip_stat"); InZip i; return zip_stat(z, n, f, s); }
int sim_zip_stat_index(zip_t *z, zip_uint64_t n, zip_flags_t f, zip_stat_t *s) { Z(z, "zip_stat_index"); InZip i; return zip_stat_index(z, n, f, s); }
const char *sim_zip_strerror(zip_t *z) { Z(z, "zip_strerror"); InZip i; return zip_strerror(z); }
zip_error_t *sim_zip_get_error(zip_t *z) { Z(z, "zip_get_error"); InZip i; return zip_get_error(z); }
const char *sim_zip_file_strerror(zip_file_t *f) { InZip i; return zip_file_strerror(f); }
const char *sim_zip_error_strerror(zip_error_t *e) { InZip i; return zip_error_strerror(e); }
void sim_zip_error_init_with_code(zip_error_t *e, int c) { InZip i; zip_error_init_with_code(e, c); }
void sim_zip_error_fini(zip_error_t *e) { InZip i; zip_error_fini(e); }
int sim_zip_set_file_compression(zip_t *z, zip_uint64_t n, zip_int32_t c, zip_uint32_t f) { Z(z, "zip_set_file_compression"); InZip i; return zip_set_file_compression(z, n, c, f); }
int sim_zip_file_set_mtime(zip_t *z, zip_uint64_t n, time_t t, zip_flags_t f) { Z(z, "zip_file_set_mtime"); InZip i; return zip_file_set_mtime(z, n, t, f); }
int sim_zip_delete(zip_t *z, zip_uint64_t n) { Z(z, "zip_delete"); InZip i; return zip_delete(z, n); }
zip_source_t *sim_zip_source_buffer_create(const void *d, zip_uint64_t n, int fr, zip_error_t *e) { zip_source_t *s; { InZip i; s = zip_source_buffer_create(d, n, fr, e); } add(g_srcs, s); return s; }
zip_source_t *sim_zip_source_buffer(zip_t *z, const void *d, zip_uint64_t n, int fr) { Z(z, "zip_source_buffer"); zip_source_t *s; { InZip i; s = zip_source_buffer(z, d, n, fr); } add(g_srcs, s); return s; }
zip_source_t *sim_zip_source_file_create(const char *n, zip_uint64_t st, zip_int64_t len, zip_error_t *e) { zip_source_t *s; { InZip i; s = zip_source_file_create(n, st, len, e); } add(g_srcs, s); return s; }
void sim_zip_source_free(zip_source_t *s) { if (!s) return; need(g_srcs, s, "zip_source_free", "a source"); drop(g_srcs, s); InZip i; zip_source_free(s); }
zip_int64_t sim_zip_file_add(zip_t *z, const char *n, zip_source_t *s, zip_flags_t f) { Z(z, "zip_file_add"); if (s) need(g_srcs, s, "zip_file_add", "a source"); zip_int64_t r; { InZip i; r = zip_file_add(z, n, s, f); } if (r >= 0) drop(g_srcs, s); return r; }
zip_int64_t sim_zip_add(zip_t *z, const char *n, zip_source_t *s) { return sim_zip_file_add(z, n, s, 0); }
int sim_zip_file_replace(zip_t *z, zip_uint64_t n, zip_source_t *s, zip_flags_t f) { Z(z, "zip_file_replace"); int r; { InZip i; r = zip_file_replace(z, n, s, f); } if (r >= 0) drop(g_srcs, s); return r; }
}

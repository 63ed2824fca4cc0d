#include "upb/upb_core.h"

#include <stdlib.h>

struct blk { struct blk *next; };
struct upb_arena { struct blk *head; struct upb_arena *fused; };

upb_arena *upb_arena_new(void) { return (upb_arena *)calloc(1, sizeof(upb_arena)); }
upb_arena *upb_arena_init(void *mem, size_t n, upb_alloc *alloc) {
  (void)mem; (void)n; (void)alloc;
  return upb_arena_new();
}
bool upb_arena_fuse(upb_arena *a, upb_arena *b) { (void)a; (void)b; return false; }
void upb_arena_free(upb_arena *a) {
  if (!a) return;
  struct blk *b = a->head;
  while (b) { struct blk *n = b->next; free(b); b = n; }
  free(a);
}
void *upb_arena_malloc(upb_arena *a, size_t size) {
  struct blk *b = (struct blk *)malloc(16 + size);
  if (!b) return NULL;
  b->next = a->head;
  a->head = b;
  return (char *)b + 16;
}
void *upb_arena_realloc(upb_arena *a, void *ptr, size_t oldsize, size_t size) {
  void *n = upb_arena_malloc(a, size);
  if (n && ptr && oldsize) memcpy(n, ptr, oldsize < size ? oldsize : size);
  return n;
}
void *_upb_msg_new(const upb_msglayout *l, upb_arena *a) {
  void *p = upb_arena_malloc(a, l->size ? l->size : 1);
  if (p) memset(p, 0, l->size);
  return p;
}

typedef struct { char *data; size_t len, cap; } arr;
static arr **arr_at(const void *msg, size_t ofs) { return (arr **)((char *)msg + ofs); }

const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *size) {
  arr *x = *arr_at(msg, ofs);
  if (size) *size = x ? x->len : 0;
  return x ? x->data : NULL;
}
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *size) {
  return (void *)_upb_array_accessor(msg, ofs, size);
}
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t size, int lg2,
                                  upb_arena *arena) {
  arr **px = arr_at(msg, ofs);
  if (!*px) {
    *px = (arr *)upb_arena_malloc(arena, sizeof(arr));
    memset(*px, 0, sizeof(arr));
    /* never a null pointer, even for no elements (as in upb) */
    (*px)->data = (char *)upb_arena_malloc(arena, 1);
  }
  arr *x = *px;
  size_t es = (size_t)1 << lg2;
  if (size > x->cap) {
    x->data = (char *)upb_arena_realloc(arena, x->data, x->len * es, size * es);
    x->cap = size;
  }
  /* New elements of a real upb array are uninitialised: poison them. */
  if (size > x->len) memset(x->data + x->len * es, 0xA5, (size - x->len) * es);
  x->len = size;
  return x->data;
}
bool _upb_array_append_accessor2(void *msg, size_t ofs, int lg2, const void *value,
                                 upb_arena *arena) {
  arr *x = *arr_at(msg, ofs);
  size_t n = x ? x->len : 0;
  size_t es = (size_t)1 << lg2;
  char *d = (char *)_upb_array_resize_accessor2(msg, ofs, n + 1, lg2, arena);
  if (!d) return false;
  memcpy(d + n * es, value, es);
  return true;
}

/* string -> string maps only: the only ones in these protos. */
typedef struct { upb_strview k, v; } ent;
typedef struct { ent *e[64]; size_t n; } map;
static map **map_at(const void *msg, size_t ofs) { return (map **)((char *)msg + ofs); }
size_t _upb_msg_map_size(const upb_msg *msg, size_t ofs) {
  map *m = *map_at(msg, ofs);
  return m ? m->n : 0;
}
bool _upb_msg_map_get(const upb_msg *msg, size_t ofs, const void *key, size_t ks,
                      void *val, size_t vs) {
  map *m = *map_at(msg, ofs);
  (void)ks; (void)vs;
  if (!m) return false;
  for (size_t i = 0; i < m->n; i++)
    if (upb_strview_eql(m->e[i]->k, *(const upb_strview *)key)) {
      if (val) *(upb_strview *)val = m->e[i]->v;
      return true;
    }
  return false;
}
void *_upb_msg_map_next(const upb_msg *msg, size_t ofs, size_t *iter) {
  map *m = *map_at(msg, ofs);
  /* iter starts as UPB_MAP_BEGIN == (size_t)-1 */
  if (!m || *iter + 1 >= m->n) return NULL;
  return m->e[++*iter];
}
bool _upb_msg_map_set(upb_msg *msg, size_t ofs, const void *key, size_t ks, void *val,
                      size_t vs, upb_arena *arena) {
  (void)ks; (void)vs;
  map **pm = map_at(msg, ofs);
  if (!*pm) {
    *pm = (map *)upb_arena_malloc(arena, sizeof(map));
    memset(*pm, 0, sizeof(map));
  }
  map *m = *pm;
  for (size_t i = 0; i < m->n; i++)
    if (upb_strview_eql(m->e[i]->k, *(const upb_strview *)key)) {
      m->e[i]->v = *(upb_strview *)val;
      return true;
    }
  if (m->n == 64) return false;
  ent *e = (ent *)upb_arena_malloc(arena, sizeof(ent));
  e->k = *(const upb_strview *)key;
  e->v = *(upb_strview *)val;
  m->e[m->n++] = e;
  return true;
}
bool _upb_msg_map_delete(upb_msg *msg, size_t ofs, const void *key, size_t ks) {
  map *m = *map_at(msg, ofs);
  (void)ks;
  if (!m) return false;
  for (size_t i = 0; i < m->n; i++)
    if (upb_strview_eql(m->e[i]->k, *(const upb_strview *)key)) {
      m->e[i] = m->e[--m->n];
      return true;
    }
  return false;
}
void _upb_msg_map_clear(upb_msg *msg, size_t ofs) {
  map *m = *map_at(msg, ofs);
  if (m) m->n = 0;
}
void _upb_msg_map_key(const void *msg, void *key, size_t size) { (void)size; *(upb_strview *)key = ((const ent *)msg)->k; }
void _upb_msg_map_value(const void *msg, void *val, size_t size) { (void)size; *(upb_strview *)val = ((const ent *)msg)->v; }
void _upb_msg_map_set_value(void *msg, const void *val, size_t size) { (void)size; ((ent *)msg)->v = *(const upb_strview *)val; }

/* ------------------------------------------------------------------ wire */
enum { T_UINT64 = 4, T_BOOL = 8, T_STRING = 9, T_MSG = 11, T_BYTES = 12, T_UINT32 = 13, T_ENUM = 14, T_INT64 = 3, T_INT32 = 5,
       T_DOUBLE = 1, T_FLOAT = 2, T_FIXED64 = 6, T_FIXED32 = 7, T_SFIXED32 = 15, T_SFIXED64 = 16, T_SINT32 = 17, T_SINT64 = 18 };
/* The wire type of a scalar: 0 varint, 1 eight bytes, 5 four bytes. */
static unsigned wt_of(int t) {
  switch (t) {
    case T_DOUBLE: case T_FIXED64: case T_SFIXED64: return 1;
    case T_FLOAT: case T_FIXED32: case T_SFIXED32: return 5;
    default: return 0;
  }
}
static int lg2_of(int t) {
  switch (t) {
    case T_BOOL: return 0;
    case T_UINT32: case T_ENUM: case T_INT32: case T_SINT32: case T_FLOAT: case T_FIXED32: case T_SFIXED32: return 2;
    case T_STRING: case T_BYTES: return 4;
    default: return 3;
  }
}

typedef struct { char *p; size_t n, cap; bool fail; } wbuf;
static void wraw(wbuf *w, const void *d, size_t n) {
  if (n == 0) return;
  if (w->n + n > w->cap) {
    size_t c = (w->n + n) * 2 + 64;
    char *q = (char *)realloc(w->p, c);
    if (!q) { w->fail = true; return; }
    w->p = q;
    w->cap = c;
  }
  memcpy(w->p + w->n, d, n);
  w->n += n;
}
static void wvar(wbuf *w, uint64_t v) {
  char b[10];
  int n = 0;
  do { b[n] = (char)((v & 0x7f) | (v > 0x7f ? 0x80 : 0)); n++; v >>= 7; } while (v);
  wraw(w, b, n);
}
static void enc_msg(wbuf *w, const void *msg, const upb_msglayout *l);
static uint64_t scalar(int t, const void *p) {
  switch (t) {
    case T_BOOL: return *(const bool *)p;
    case T_UINT32: case T_FLOAT: case T_FIXED32: case T_SFIXED32: return *(const uint32_t *)p;
    case T_SINT32: { int32_t x = *(const int32_t *)p; return ((uint32_t)x << 1) ^ (uint32_t)(x >> 31); }
    case T_SINT64: { int64_t x = *(const int64_t *)p; return ((uint64_t)x << 1) ^ (uint64_t)(x >> 63); }
    case T_ENUM: case T_INT32: return (uint64_t)(int64_t)*(const int32_t *)p;
    default: return *(const uint64_t *)p;
  }
}
static void wscalar(wbuf *w, int t, const void *p) {
  if (wt_of(t) == 0) wvar(w, scalar(t, p));
  else wraw(w, p, wt_of(t) == 1 ? 8 : 4);
}
static void enc_value(wbuf *w, const upb_msglayout *l, const upb_msglayout_field *f, const void *p) {
  int t = f->descriptortype;
  if (t == T_MSG) {
    const void *sub = *(const void *const *)p;
    wbuf s = {0, 0, 0, false};
    if (sub) enc_msg(&s, sub, l->submsgs[f->submsg_index]);
    wvar(w, f->number << 3 | 2);
    wvar(w, s.n);
    wraw(w, s.p, s.n);
    free(s.p);
  } else if (t == T_STRING || t == T_BYTES) {
    const upb_strview *s = (const upb_strview *)p;
    wvar(w, f->number << 3 | 2);
    wvar(w, s->size);
    wraw(w, s->data, s->size);
  } else {
    wvar(w, f->number << 3 | wt_of(t));
    wscalar(w, t, p);
  }
}
static void enc_msg(wbuf *w, const void *msg, const upb_msglayout *l) {
  for (int i = 0; i < l->field_count; i++) {
    const upb_msglayout_field *f = &l->fields[i];
    const char *p = (const char *)msg + f->offset;
    int t = f->descriptortype;
    if (f->mode == _UPB_LABEL_MAP) {
      const map *m = *(const map *const *)p;
      for (size_t k = 0; m && k < m->n; k++) {
        wbuf s = {0, 0, 0, false};
        enc_msg(&s, m->e[k], l->submsgs[f->submsg_index]);
        wvar(w, f->number << 3 | 2);
        wvar(w, s.n);
        wraw(w, s.p, s.n);
        free(s.p);
      }
    } else if (f->mode == _UPB_LABEL_REPEATED || f->mode == _UPB_LABEL_PACKED) {
      const arr *x = *(const arr *const *)p;
      size_t es = (size_t)1 << lg2_of(t);
      if (!x || !x->len) continue;
      if (f->mode == _UPB_LABEL_PACKED) {
        wbuf s = {0, 0, 0, false};
        for (size_t k = 0; k < x->len; k++) wscalar(&s, t, x->data + k * es);
        wvar(w, f->number << 3 | 2);
        wvar(w, s.n);
        wraw(w, s.p, s.n);
        free(s.p);
      } else {
        for (size_t k = 0; k < x->len; k++) enc_value(w, l, f, x->data + k * es);
      }
    } else {
      if (t == T_MSG && !*(const void *const *)p) continue; /* as upb does */
      if (f->presence > 0) {
        if (!_upb_hasbit(msg, f->presence)) continue;
      } else if (f->presence < 0) {
        if (_upb_getoneofcase(msg, ~f->presence) != f->number) continue;
      } else if (t == T_STRING || t == T_BYTES) {
        if (((const upb_strview *)p)->size == 0) continue;
      } else if (t != T_MSG && scalar(t, p) == 0) {
        continue;
      }
      enc_value(w, l, f, p);
    }
  }
}
char *upb_encode(const void *msg, const upb_msglayout *l, upb_arena *arena, size_t *size) {
  wbuf w = {0, 0, 0, false};
  enc_msg(&w, msg, l);
  char *out = NULL;
  if (!w.fail && (out = (char *)upb_arena_malloc(arena, w.n ? w.n : 1)) != NULL) {
    if (w.n) memcpy(out, w.p, w.n);
    *size = w.n;
  } else {
    *size = 0;
  }
  free(w.p);
  return out;
}

static bool rvar(const char **p, const char *e, uint64_t *v) {
  uint64_t r = 0;
  for (int i = 0; i < 10; i++) {
    if (*p == e) return false;
    unsigned char c = (unsigned char)*(*p)++;
    if (i == 9 && c > 1) return false;
    r |= (uint64_t)(c & 0x7f) << (7 * i);
    if (!(c & 0x80)) { *v = r; return true; }
  }
  return false;
}
static bool utf8_ok(const char *d, size_t n) {
  const unsigned char *s = (const unsigned char *)d;
  size_t i = 0;
  while (i < n) {
    unsigned c = s[i];
    size_t k;
    if (c < 0x80) { i++; continue; }
    if (c >= 0xC2 && c <= 0xDF) k = 1;
    else if (c >= 0xE0 && c <= 0xEF) k = 2;
    else if (c >= 0xF0 && c <= 0xF4) k = 3;
    else return false;
    if (i + k > n - 1) return false;
    for (size_t j = 1; j <= k; j++)
      if ((s[i + j] & 0xC0) != 0x80) return false;
    if (c == 0xE0 && s[i + 1] < 0xA0) return false;
    if (c == 0xED && s[i + 1] > 0x9F) return false;
    if (c == 0xF0 && s[i + 1] < 0x90) return false;
    if (c == 0xF4 && s[i + 1] > 0x8F) return false;
    i += k + 1;
  }
  return true;
}
static bool skip_field(const char **p, const char *e, unsigned wt, uint32_t num, int depth) {
  uint64_t v;
  if (depth > 64) return false;
  switch (wt) {
    case 0: return rvar(p, e, &v);
    case 1: if (e - *p < 8) return false; *p += 8; return true;
    case 5: if (e - *p < 4) return false; *p += 4; return true;
    case 2:
      if (!rvar(p, e, &v) || v > (uint64_t)(e - *p)) return false;
      *p += v;
      return true;
    case 3:
      for (;;) {
        if (!rvar(p, e, &v)) return false;
        if ((v & 7) == 4) return (v >> 3) == num;
        if (!skip_field(p, e, v & 7, (uint32_t)(v >> 3), depth + 1)) return false;
      }
    default: return false;
  }
}
static void put_scalar(int t, void *p, uint64_t v) {
  switch (t) {
    case T_BOOL: *(bool *)p = v != 0; break;
    case T_UINT32: case T_ENUM: case T_INT32: case T_FLOAT: case T_FIXED32: case T_SFIXED32: { uint32_t x = (uint32_t)v; memcpy(p, &x, 4); break; }
    case T_SINT32: { uint32_t x = (uint32_t)v; x = (x >> 1) ^ -(x & 1); memcpy(p, &x, 4); break; }
    case T_SINT64: v = (v >> 1) ^ -(v & 1); memcpy(p, &v, 8); break;
    default: memcpy(p, &v, 8);
  }
}
static bool rscalar(int t, const char **p, const char *e, uint64_t *v) {
  size_t n = wt_of(t) == 1 ? 8 : 4;
  if (wt_of(t) == 0) return rvar(p, e, v);
  if ((size_t)(e - *p) < n) return false;
  *v = 0;
  memcpy(v, *p, n);
  *p += n;
  return true;
}
#define ALIAS_BIT (1 << 20) /* in |depth|: strings point into the input */
static bool dec_msg(const char *p, const char *e, void *msg, const upb_msglayout *l, upb_arena *a, int depth) {
  if ((depth & ~ALIAS_BIT) > 64) return false;
  while (p < e) {
    uint64_t tag, v;
    if (!rvar(&p, e, &tag) || tag > 0xffffffffu) return false;
    uint32_t num = (uint32_t)(tag >> 3);
    unsigned wt = tag & 7;
    if (num == 0) return false;
    const upb_msglayout_field *f = NULL;
    for (int i = 0; i < l->field_count; i++)
      if (l->fields[i].number == num) f = &l->fields[i];
    int t = f ? f->descriptortype : 0;
    bool len_type = t == T_MSG || t == T_STRING || t == T_BYTES;
    bool rep = f && (f->mode == _UPB_LABEL_REPEATED || f->mode == _UPB_LABEL_PACKED);
    bool ok = f && ((len_type && wt == 2) || (!len_type && wt == wt_of(t)) || (!len_type && rep && wt == 2));
    if (!ok) {
      if (!skip_field(&p, e, wt, num, depth & ~ALIAS_BIT)) return false;
      continue;
    }
    char *dst = (char *)msg + f->offset;
    size_t es = (size_t)1 << lg2_of(t);
    if (wt != 2) {
      if (!rscalar(t, &p, e, &v)) return false;
      if (rep) {
        char tmp[8];
        put_scalar(t, tmp, v);
        _upb_array_append_accessor2(msg, f->offset, lg2_of(t), tmp, a);
      } else {
        put_scalar(t, dst, v);
        if (f->presence > 0) _upb_sethas(msg, f->presence);
        if (f->presence < 0) *_UPB_AT(msg, ~f->presence, uint32_t) = num;
      }
      continue;
    }
    if (!rvar(&p, e, &v) || v > (uint64_t)(e - p)) return false;
    const char *q = p + v;
    if (!len_type) { /* packed */
      while (p < q) {
        uint64_t x;
        char tmp[8];
        if (!rscalar(t, &p, q, &x)) return false;
        put_scalar(t, tmp, x);
        _upb_array_append_accessor2(msg, f->offset, lg2_of(t), tmp, a);
      }
      continue;
    }
    if (f->mode == _UPB_LABEL_MAP) {
      ent tmp;
      memset(&tmp, 0, sizeof tmp);
      tmp.k.data = tmp.v.data = "";
      if (!dec_msg(p, q, &tmp, l->submsgs[f->submsg_index], a, depth + 1)) return false;
      _upb_msg_map_set(msg, f->offset, &tmp.k, 0, &tmp.v, 0, a);
      p = q;
      continue;
    }
    if (t == T_MSG) {
      const upb_msglayout *sl = l->submsgs[f->submsg_index];
      void *sub = NULL;
      if (rep) {
        sub = _upb_msg_new(sl, a);
        _upb_array_append_accessor2(msg, f->offset, 3, &sub, a);
      } else {
        if (f->presence < 0) {
          uint32_t *c = _UPB_AT(msg, ~f->presence, uint32_t);
          if (*c != num) { *c = num; *(void **)dst = NULL; }
        }
        if (f->presence > 0) _upb_sethas(msg, f->presence);
        sub = *(void **)dst;
        if (!sub) *(void **)dst = sub = _upb_msg_new(sl, a);
      }
      if (!dec_msg(p, q, sub, sl, a, depth + 1)) return false;
    } else {
      upb_strview s;
      if (t == T_STRING && !utf8_ok(p, v)) return false;
      if (depth & ALIAS_BIT) {
        s.data = p;
      } else {
        char *c = (char *)upb_arena_malloc(a, v ? v : 1);
        if (v) memcpy(c, p, v);
        s.data = c;
      }
      s.size = v;
      if (rep) {
        _upb_array_append_accessor2(msg, f->offset, lg2_of(t), &s, a);
      } else {
        memcpy(dst, &s, es);
        if (f->presence > 0) _upb_sethas(msg, f->presence);
        if (f->presence < 0) *_UPB_AT(msg, ~f->presence, uint32_t) = num;
      }
    }
    p = q;
  }
  return true;
}
bool _upb_decode(const char *buf, size_t size, upb_msg *msg, const upb_msglayout *l,
                 upb_arena *arena, int options) {
  if (size == 0) return true;
  return dec_msg(buf, buf + size, msg, l, arena, (options & UPB_DECODE_ALIAS) ? ALIAS_BIT : 0);
}

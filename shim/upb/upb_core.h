/* A small stand-in for the 2021 upb runtime that google/s2a-core's generated
 * *.upb.h / *.upb.c files are written against.  upb itself is not installed in
 * this sandbox.  It implements the published protobuf wire format and the
 * documented accessors; every arena allocation is a separate malloc so that
 * AddressSanitizer sees overflows and uses after the arena is gone. */
#ifndef VERIF_SHIM_UPB_CORE_H_
#define VERIF_SHIM_UPB_CORE_H_
#include <assert.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef void upb_msg;
typedef struct upb_arena upb_arena;
typedef struct upb_alloc upb_alloc;

typedef struct {
  const char *data;
  size_t size;
} upb_strview;

static inline upb_strview upb_strview_make(const char *data, size_t size) {
  upb_strview ret;
  ret.data = data;
  ret.size = size;
  return ret;
}
static inline upb_strview upb_strview_makez(const char *data) {
  return upb_strview_make(data, strlen(data));
}
static inline bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && (a.size == 0 || memcmp(a.data, b.data, a.size) == 0);
}
#define UPB_STRVIEW_INIT(ptr, len) {ptr, len}
#define UPB_STRVIEW_FORMAT "%.*s"
#define UPB_STRVIEW_ARGS(view) (int)(view).size, (view).data

upb_arena *upb_arena_new(void);
upb_arena *upb_arena_init(void *mem, size_t n, upb_alloc *alloc);
void upb_arena_free(upb_arena *a);
bool upb_arena_fuse(upb_arena *a, upb_arena *b);
void *upb_arena_malloc(upb_arena *a, size_t size);
void *upb_arena_realloc(upb_arena *a, void *ptr, size_t oldsize, size_t size);

typedef struct upb_msglayout_field {
  uint32_t number;
  uint16_t offset;
  int16_t presence; /* >0 hasbit, <0 ~oneof case offset, 0 none */
  uint16_t submsg_index;
  uint8_t descriptortype;
  int8_t mode; /* label */
} upb_msglayout_field;

typedef struct upb_msglayout {
  const struct upb_msglayout *const *submsgs;
  const upb_msglayout_field *fields;
  uint16_t size;
  uint16_t field_count;
  bool extendable;
  uint8_t dense_below;
} upb_msglayout;

enum {
  _UPB_LABEL_OPTIONAL = 1,
  _UPB_LABEL_REQUIRED = 2,
  _UPB_LABEL_REPEATED = 3,
  _UPB_LABEL_MAP = 4,
  _UPB_LABEL_PACKED = 7
};

enum { UPB_DECODE_ALIAS = 1 };

void *_upb_msg_new(const upb_msglayout *l, upb_arena *a);
bool _upb_decode(const char *buf, size_t size, upb_msg *msg,
                 const upb_msglayout *l, upb_arena *arena, int options);
static inline bool upb_decode(const char *buf, size_t size, upb_msg *msg,
                              const upb_msglayout *l, upb_arena *arena) {
  return _upb_decode(buf, size, msg, l, arena, 0);
}
char *upb_encode(const void *msg, const upb_msglayout *l, upb_arena *arena,
                 size_t *size);

#define _UPB_AT(msg, ofs, type) ((type *)((char *)(msg) + (ofs)))

static inline bool _upb_hasbit(const upb_msg *msg, size_t idx) {
  return (*_UPB_AT(msg, idx / 8, const char) & (1 << (idx % 8))) != 0;
}
static inline bool _upb_sethas(const upb_msg *msg, size_t idx) {
  return (*_UPB_AT(msg, idx / 8, char)) |= (char)(1 << (idx % 8));
}
static inline bool _upb_clearhas(const upb_msg *msg, size_t idx) {
  return (*_UPB_AT(msg, idx / 8, char)) &= (char)(~(1 << (idx % 8)));
}
static inline uint32_t _upb_getoneofcase(const void *msg, size_t case_ofs) {
  return *_UPB_AT(msg, case_ofs, uint32_t);
}
static inline bool _upb_has_submsg_nohasbit(const upb_msg *msg, size_t ofs) {
  return *_UPB_AT(msg, ofs, const upb_msg *) != NULL;
}

const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *size);
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *size);
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t size,
                                  int elem_size_lg2, upb_arena *arena);
bool _upb_array_append_accessor2(void *msg, size_t ofs, int elem_size_lg2,
                                 const void *value, upb_arena *arena);

size_t _upb_msg_map_size(const upb_msg *msg, size_t ofs);
bool _upb_msg_map_get(const upb_msg *msg, size_t ofs, const void *key,
                      size_t key_size, void *val, size_t val_size);
void *_upb_msg_map_next(const upb_msg *msg, size_t ofs, size_t *iter);
bool _upb_msg_map_set(upb_msg *msg, size_t ofs, const void *key,
                      size_t key_size, void *val, size_t val_size,
                      upb_arena *arena);
bool _upb_msg_map_delete(upb_msg *msg, size_t ofs, const void *key,
                         size_t key_size);
void _upb_msg_map_clear(upb_msg *msg, size_t ofs);
void _upb_msg_map_key(const void *msg, void *key, size_t size);
void _upb_msg_map_value(const void *msg, void *val, size_t size);
void _upb_msg_map_set_value(void *msg, const void *val, size_t size);

#ifdef __cplusplus
}
#endif
#endif

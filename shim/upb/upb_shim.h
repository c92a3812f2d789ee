/* Minimal stand-in for the upb runtime (the 2021 "msglayout" generation), so
 * that the parts of s2a-core that need upb can be compiled and executed here.
 * It implements the proto3 wire format for the layouts in
 * src/proto/upb-generated; every allocation is a separate malloc block, so
 * AddressSanitizer sees overruns and use after the arena is gone.
 * Deterministic, no fast paths, no aliasing of the input by the decoder. */
#ifndef VERIF_UPB_SHIM_H_
#define VERIF_UPB_SHIM_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct { const char *data; size_t size; } upb_strview;
static inline upb_strview upb_strview_make(const char *d, size_t n) {
  upb_strview r; r.data = d; r.size = n; return r;
}
static inline upb_strview upb_strview_makez(const char *d) {
  return upb_strview_make(d, strlen(d));
}
static inline bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && (a.size == 0 || memcmp(a.data, b.data, a.size) == 0);
}

typedef struct upb_arena upb_arena;
upb_arena *upb_arena_new(void);
void upb_arena_free(upb_arena *a);
void *upb_arena_malloc(upb_arena *a, size_t n);

typedef struct {
  uint32_t number;
  uint16_t offset;
  int16_t presence; /* >0: hasbit index; <0: ~offset of the oneof case */
  uint16_t submsg_index;
  uint8_t descriptortype;
  uint8_t label;
} upb_msglayout_field;

typedef struct upb_msglayout {
  const struct upb_msglayout *const *submsgs;
  const upb_msglayout_field *fields;
  uint16_t size;
  uint16_t field_count;
  bool extendable;
  uint8_t dense_below;
} upb_msglayout;
typedef void upb_msg;

void *_upb_msg_new(const upb_msglayout *l, upb_arena *a);
bool upb_decode(const char *buf, size_t size, void *msg, const upb_msglayout *l, upb_arena *a);
bool _upb_decode(const char *buf, size_t size, void *msg, const upb_msglayout *l, upb_arena *a, int options);
char *upb_encode(const void *msg, const upb_msglayout *l, upb_arena *a, size_t *size);

const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *len);
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *len);
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t len, int lg2, upb_arena *a);
bool _upb_array_append_accessor2(void *msg, size_t ofs, int lg2, const void *val, upb_arena *a);

size_t _upb_msg_map_size(const void *msg, size_t ofs);
bool _upb_msg_map_get(const void *msg, size_t ofs, const void *key, size_t ksz, void *val, size_t vsz);
const void *_upb_msg_map_next(const void *msg, size_t ofs, size_t *iter);
void _upb_msg_map_clear(void *msg, size_t ofs);
bool _upb_msg_map_set(void *msg, size_t ofs, const void *key, size_t ksz, const void *val, size_t vsz, upb_arena *a);
bool _upb_msg_map_delete(void *msg, size_t ofs, const void *key, size_t ksz);
void _upb_msg_map_key(const void *entry, void *key, size_t sz);
void _upb_msg_map_value(const void *entry, void *val, size_t sz);
void _upb_msg_map_set_value(void *entry, const void *val, size_t sz);

static inline bool _upb_hasbit(const void *msg, size_t i) {
  return (((const unsigned char *)msg)[i / 8] >> (i % 8)) & 1;
}
static inline void _upb_sethas(const void *msg, size_t i) {
  ((unsigned char *)msg)[i / 8] |= (unsigned char)(1u << (i % 8));
}
static inline uint32_t _upb_getoneofcase(const void *msg, size_t ofs) {
  uint32_t r; memcpy(&r, (const char *)msg + ofs, 4); return r;
}
static inline bool _upb_has_submsg_nohasbit(const void *msg, size_t ofs) {
  const void *r; memcpy(&r, (const char *)msg + ofs, sizeof(r)); return r != NULL;
}
#ifdef __cplusplus
}
#endif
#endif

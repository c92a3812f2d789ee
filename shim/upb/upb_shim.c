#include "upb/upb_shim.h"
#include <stdlib.h>

struct blk { struct blk *next; };
struct upb_arena { struct blk *head; };
upb_arena *upb_arena_new(void) { return (upb_arena *)calloc(1, sizeof(upb_arena)); }
/* Each block is two mallocs so that the payload has its own red zones. */
struct node { struct node *next; void *p; };
void *upb_arena_malloc(upb_arena *a, size_t n) {
  struct node *nd = (struct node *)malloc(sizeof(*nd));
  nd->p = malloc(n ? n : 1);
  nd->next = (struct node *)a->head;
  a->head = (struct blk *)nd;
  return nd->p;
}
void upb_arena_free(upb_arena *a) {
  struct node *n = (struct node *)a->head;
  while (n) { struct node *x = n->next; free(n->p); free(n); n = x; }
  free(a);
}

typedef struct { size_t len, cap; char *data; } arr;
typedef struct { upb_strview key, val; } ent;
typedef struct { size_t len, cap; ent **e; } map;

#define P(msg, ofs, T) (*(T *)((char *)(msg) + (ofs)))

void *_upb_msg_new(const upb_msglayout *l, upb_arena *a) {
  void *p = upb_arena_malloc(a, l->size);
  memset(p, 0, l->size);
  return p;
}
const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *len) {
  const arr *x = P(msg, ofs, arr *);
  if (!x) { if (len) *len = 0; return NULL; }
  if (len) *len = x->len;
  return x->data;
}
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *len) {
  return (void *)_upb_array_accessor(msg, ofs, len);
}
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t len, int lg2, upb_arena *a) {
  arr *x = P(msg, ofs, arr *);
  if (!x) {
    x = (arr *)upb_arena_malloc(a, sizeof(arr));
    memset(x, 0, sizeof(*x));
    P(msg, ofs, arr *) = x;
  }
  if (len > x->cap || !x->data) {  /* upb gives a non-null pointer for 0 elements, too */
    char *d = (char *)upb_arena_malloc(a, (len ? len : 1) << lg2);
    memset(d, 0, len << lg2);
    if (x->len) memcpy(d, x->data, x->len << lg2);
    x->data = d;
    x->cap = len;
  }
  x->len = len;
  return x->data;
}
bool _upb_array_append_accessor2(void *msg, size_t ofs, int lg2, const void *val, upb_arena *a) {
  arr *x = P(msg, ofs, arr *);
  size_t n = x ? x->len : 0;
  char *d = (char *)_upb_array_resize_accessor2(msg, ofs, n + 1, lg2, a);
  memcpy(d + (n << lg2), val, (size_t)1 << lg2);
  return true;
}

size_t _upb_msg_map_size(const void *msg, size_t ofs) { map *m = P(msg, ofs, map *); return m ? m->len : 0; }
static ent *mfind(map *m, upb_strview k) {
  if (m) for (size_t i = 0; i < m->len; i++) if (upb_strview_eql(m->e[i]->key, k)) return m->e[i];
  return NULL;
}
bool _upb_msg_map_get(const void *msg, size_t ofs, const void *key, size_t ksz, void *val, size_t vsz) {
  (void)ksz; (void)vsz;
  ent *e = mfind(P(msg, ofs, map *), *(const upb_strview *)key);
  if (!e) return false;
  *(upb_strview *)val = e->val;
  return true;
}
const void *_upb_msg_map_next(const void *msg, size_t ofs, size_t *iter) {
  map *m = P(msg, ofs, map *);
  size_t i = ++*iter; /* starts at (size_t)-1 */
  return (m && i < m->len) ? m->e[i] : NULL;
}
void _upb_msg_map_clear(void *msg, size_t ofs) { map *m = P(msg, ofs, map *); if (m) m->len = 0; }
bool _upb_msg_map_set(void *msg, size_t ofs, const void *key, size_t ksz, const void *val, size_t vsz, upb_arena *a) {
  (void)ksz; (void)vsz;
  map *m = P(msg, ofs, map *);
  if (!m) {
    m = (map *)upb_arena_malloc(a, sizeof(map));
    memset(m, 0, sizeof(*m));
    P(msg, ofs, map *) = m;
  }
  ent *e = mfind(m, *(const upb_strview *)key);
  if (!e) {
    ent **ne = (ent **)upb_arena_malloc(a, (m->len + 1) * sizeof(ent *));
    if (m->len) memcpy(ne, m->e, m->len * sizeof(ent *));
    e = (ent *)upb_arena_malloc(a, sizeof(ent));
    e->key = *(const upb_strview *)key;
    ne[m->len++] = e;
    m->e = ne;
  }
  e->val = *(const upb_strview *)val;
  return true;
}
bool _upb_msg_map_delete(void *msg, size_t ofs, const void *key, size_t ksz) {
  (void)ksz;
  map *m = P(msg, ofs, map *);
  if (!m) return false;
  for (size_t i = 0; i < m->len; i++)
    if (upb_strview_eql(m->e[i]->key, *(const upb_strview *)key)) { m->e[i] = m->e[--m->len]; return true; }
  return false;
}
void _upb_msg_map_key(const void *e, void *k, size_t s) { (void)s; *(upb_strview *)k = ((const ent *)e)->key; }
void _upb_msg_map_value(const void *e, void *v, size_t s) { (void)s; *(upb_strview *)v = ((const ent *)e)->val; }
void _upb_msg_map_set_value(void *e, const void *v, size_t s) { (void)s; ((ent *)e)->val = *(const upb_strview *)v; }

/* ---------------------------------------------------------------- encode */
typedef struct { char *d; size_t n, cap; } buf;
static void put(buf *b, const void *p, size_t n) {
  if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 64; b->d = (char *)realloc(b->d, b->cap); }
  if (n) memcpy(b->d + b->n, p, n);
  b->n += n;
}
static void pvar(buf *b, uint64_t v) {
  unsigned char t[10]; size_t n = 0;
  do { t[n] = v & 0x7f; v >>= 7; if (v) t[n] |= 0x80; n++; } while (v);
  put(b, t, n);
}
static void ptag(buf *b, uint32_t num, int wt) { pvar(b, ((uint64_t)num << 3) | wt); }
static void pstr(buf *b, upb_strview s) { pvar(b, s.size); put(b, s.data, s.size); }
static void enc(const void *msg, const upb_msglayout *l, buf *b);
static int lg2of(int t) { switch (t) { case 4: return 3; case 8: return 0; case 13: case 14: return 2; case 11: return 3; default: return 4; } }
static uint64_t scalar(const void *p, int t) {
  switch (t) {
    case 4: return *(const uint64_t *)p;
    case 8: return *(const bool *)p;
    case 13: return *(const uint32_t *)p;
    case 14: return (uint64_t)(int64_t)*(const int32_t *)p;
  }
  abort();
}
static void encone(const void *p, const upb_msglayout_field *f, const upb_msglayout *l, buf *b) {
  int t = f->descriptortype;
  if (t == 9 || t == 12) { ptag(b, f->number, 2); pstr(b, *(const upb_strview *)p); }
  else if (t == 11) {
    buf s = {0, 0, 0};
    enc(*(void *const *)p, l->submsgs[f->submsg_index], &s);
    ptag(b, f->number, 2); pvar(b, s.n); put(b, s.d, s.n); free(s.d);
  } else { ptag(b, f->number, 0); pvar(b, scalar(p, t)); }
}
static void enc(const void *msg, const upb_msglayout *l, buf *b) {
  for (int i = 0; i < l->field_count; i++) {
    const upb_msglayout_field *f = &l->fields[i];
    const char *p = (const char *)msg + f->offset;
    int t = f->descriptortype;
    if (f->label == 4) {
      const map *m = *(map *const *)p;
      for (size_t k = 0; m && k < m->len; k++) {
        buf s = {0, 0, 0};
        ptag(&s, 1, 2); pstr(&s, m->e[k]->key);
        ptag(&s, 2, 2); pstr(&s, m->e[k]->val);
        ptag(b, f->number, 2); pvar(b, s.n); put(b, s.d, s.n); free(s.d);
      }
    } else if (f->label == 7) {
      const arr *x = *(arr *const *)p;
      if (x && x->len) {
        buf s = {0, 0, 0};
        for (size_t k = 0; k < x->len; k++) pvar(&s, scalar(x->data + (k << lg2of(t)), t));
        ptag(b, f->number, 2); pvar(b, s.n); put(b, s.d, s.n); free(s.d);
      }
    } else if (f->label == 3) {
      const arr *x = *(arr *const *)p;
      for (size_t k = 0; x && k < x->len; k++) encone(x->data + (k << lg2of(t)), f, l, b);
    } else {
      if (f->presence > 0) { if (!_upb_hasbit(msg, f->presence)) continue; if (t == 11 && !*(void *const *)p) continue; }
      else if (f->presence < 0) { if (_upb_getoneofcase(msg, ~f->presence) != f->number) continue; }
      else if (t == 9 || t == 12) { if (!((const upb_strview *)p)->size) continue; }
      else if (t == 11) { if (!*(void *const *)p) continue; }
      else if (!scalar(p, t)) continue;
      encone(p, f, l, b);
    }
  }
}
char *upb_encode(const void *msg, const upb_msglayout *l, upb_arena *a, size_t *size) {
  buf b = {0, 0, 0};
  enc(msg, l, &b);
  char *r = (char *)upb_arena_malloc(a, b.n);
  if (b.n) memcpy(r, b.d, b.n);
  free(b.d);
  *size = b.n;
  return r;
}

/* ---------------------------------------------------------------- decode */
typedef struct { const unsigned char *p, *e; } in;
static bool gvar(in *s, uint64_t *v) {
  *v = 0;
  for (int sh = 0; sh < 70; sh += 7) {
    if (s->p == s->e) return false;
    unsigned char c = *s->p++;
    *v |= (uint64_t)(c & 0x7f) << (sh < 64 ? sh : 63);
    if (!(c & 0x80)) return true;
  }
  return false;
}
static bool dec(in s, void *msg, const upb_msglayout *l, upb_arena *a, int depth);
static bool skip(in *s, int wt, int depth) {
  uint64_t v;
  switch (wt) {
    case 0: return gvar(s, &v);
    case 1: if (s->e - s->p < 8) return false; s->p += 8; return true;
    case 5: if (s->e - s->p < 4) return false; s->p += 4; return true;
    case 2: if (!gvar(s, &v) || v > (uint64_t)(s->e - s->p)) return false; s->p += v; return true;
    case 3:
      if (depth > 64) return false;
      for (;;) {
        if (!gvar(s, &v)) return false;
        if ((v & 7) == 4) return true;
        if (!skip(s, v & 7, depth + 1)) return false;
      }
  }
  return false;
}
static void setscalar(void *p, int t, uint64_t v) {
  switch (t) {
    case 4: *(uint64_t *)p = v; break;
    case 8: *(bool *)p = v != 0; break;
    case 13: *(uint32_t *)p = (uint32_t)v; break;
    case 14: *(int32_t *)p = (int32_t)v; break;
  }
}
static upb_strview dup(const unsigned char *p, size_t n, upb_arena *a) {
  char *d = (char *)upb_arena_malloc(a, n);
  if (n) memcpy(d, p, n);
  return upb_strview_make(d, n);
}
static bool dec(in s, void *msg, const upb_msglayout *l, upb_arena *a, int depth) {
  if (depth > 64) return false;
  while (s.p < s.e) {
    uint64_t tag, v = 0;
    if (!gvar(&s, &tag)) return false;
    uint64_t num = tag >> 3; int wt = tag & 7;
    if (num == 0 || num > 0x1fffffff) return false;
    const upb_msglayout_field *f = NULL;
    for (int i = 0; i < l->field_count; i++) if (l->fields[i].number == num) f = &l->fields[i];
    int t = f ? f->descriptortype : 0;
    bool isstr = t == 9 || t == 11 || t == 12;
    bool packedok = f && (f->label == 3 || f->label == 7) && !isstr && wt == 2;
    if (!f || (!packedok && wt != (isstr ? 2 : 0))) { if (!skip(&s, wt, 0)) return false; continue; }
    char *p = (char *)msg + f->offset;
    if (packedok) {
      if (!gvar(&s, &v) || v > (uint64_t)(s.e - s.p)) return false;
      in q = {s.p, s.p + v}; s.p += v;
      while (q.p < q.e) {
        uint64_t x, tmp = 0;
        if (!gvar(&q, &x)) return false;
        setscalar(&tmp, t, x);
        _upb_array_append_accessor2(msg, f->offset, lg2of(t), &tmp, a);
      }
      continue;
    }
    if (!isstr) {
      if (!gvar(&s, &v)) return false;
      if (f->label == 3 || f->label == 7) {
        uint64_t tmp = 0; setscalar(&tmp, t, v);
        _upb_array_append_accessor2(msg, f->offset, lg2of(t), &tmp, a);
        continue;
      }
      setscalar(p, t, v);
    } else {
      if (!gvar(&s, &v) || v > (uint64_t)(s.e - s.p)) return false;
      const unsigned char *d = s.p; s.p += v;
      in q = {d, d + v};
      if (f->label == 4) {
        ent kv; memset(&kv, 0, sizeof kv);
        if (!dec(q, &kv, l->submsgs[f->submsg_index], a, depth + 1)) return false;
        if (!kv.key.data) kv.key.data = "";
        if (!kv.val.data) kv.val.data = "";
        _upb_msg_map_set(msg, f->offset, &kv.key, 0, &kv.val, 0, a);
        continue;
      }
      if (t == 11) {
        const upb_msglayout *sl = l->submsgs[f->submsg_index];
        void *sub = NULL;
        if (f->label == 3) { sub = _upb_msg_new(sl, a); _upb_array_append_accessor2(msg, f->offset, 3, &sub, a); }
        else {
          bool reuse = *(void **)p && !(f->presence < 0 && _upb_getoneofcase(msg, ~f->presence) != f->number);
          sub = reuse ? *(void **)p : _upb_msg_new(sl, a);
          *(void **)p = sub;
        }
        if (!dec(q, sub, sl, a, depth + 1)) return false;
        if (f->label == 3) continue;
      } else {
        upb_strview sv = dup(d, v, a);
        if (f->label == 3) { _upb_array_append_accessor2(msg, f->offset, 4, &sv, a); continue; }
        *(upb_strview *)p = sv;
      }
    }
    if (f->presence > 0) _upb_sethas(msg, f->presence);
    else if (f->presence < 0) *(int32_t *)((char *)msg + ~f->presence) = (int32_t)f->number;
  }
  return true;
}
bool _upb_decode(const char *b, size_t n, void *msg, const upb_msglayout *l, upb_arena *a, int o) {
  (void)o;
  in s = {(const unsigned char *)b, (const unsigned char *)b + n};
  return dec(s, msg, l, a, 0);
}
bool upb_decode(const char *b, size_t n, void *msg, const upb_msglayout *l, upb_arena *a) {
  return _upb_decode(b, n, msg, l, a, 0);
}

/* Included once per language with M02_NAME set to the name of the client */
#include <stddef.h>
#include <stdlib.h>
#include "dynd/abi/array.h"
#include "dynd/abi/atomic.h"
#include "dynd/abi/metadata.h"
#include "dynd/abi/refcount.h"
#include "dynd/abi/type.h"
#include "dynd/abi/type_constructor.h"
#include "dynd/abi/types/dense.h"
#include "dynd/abi/types/primitive.h"
#include "dynd/abi/types/sparse.h"
#include "dynd/abi/types/tuple.h"
#include "dynd/abi/version.h"
#include "m02_client.h"

static void m_incref(void *o) { dynd_incref((dynd_refcounted *)o); }
static void m_decref(void *o) { dynd_decref((dynd_refcounted *)o); }
static size_t m_count(void *o) { return dynd_atomic_load(&((dynd_refcounted *)o)->refcount, dynd_memory_order_relaxed); }
static dynd_type_constructor *m_ctors(int w) {
  return w == M02_DENSE ? &dynd_type_dense : w == M02_SPARSE ? &dynd_type_sparse : &dynd_type_tuple;
}
static void *m_make(int w, void **b, void **e) {
  dynd_type_constructor *c = m_ctors(w);
  dynd_type_range r;
  r.begin = (dynd_type **)b;
  r.end = (dynd_type **)e;
  return c->header.vtable->entries.make(&c->header, r);
}
static size_t m_alignment(void *t) {
  dynd_type *p = (dynd_type *)t;
  return p->header.vtable->entries.alignment(&p->header);
}
static void **m_params(void *t, size_t *n) {
  dynd_type *p = (dynd_type *)t;
  dynd_type_range r = p->header.vtable->entries.parameters(&p->header);
  *n = (size_t)(r.end - r.begin);
  return (void **)r.begin;
}
static size_t m_superclasses(void *t) {
  dynd_type *p = (dynd_type *)t;
  dynd_type_range r = p->header.vtable->entries.superclasses(&p->header);
  return (size_t)(r.end - r.begin);
}
static void *m_constructor_of(void *t) { return ((dynd_type *)t)->header.constructor; }
static void *m_vtable_of(void *t) { return ((dynd_type *)t)->header.vtable; }
static void *m_base_of(void *t, size_t *size) {
  *size = ((dynd_type *)t)->header.allocated.size;
  return ((dynd_type *)t)->header.allocated.base_ptr;
}
static void *m_ctor(int w) { return m_ctors(w); }
static void *m_ctor_vtable(int w) { return m_ctors(w)->header.vtable; }
static void *m_primitive(int w) {
  switch (w) {
  case 0: return &dynd_type_float16;
  case 1: return &dynd_type_float32;
  case 2: return &dynd_type_float64;
  case 3: return &dynd_type_uint8;
  case 4: return &dynd_type_uint16;
  case 5: return &dynd_type_uint32;
  case 6: return &dynd_type_uint64;
  case 7: return &dynd_type_int8;
  case 8: return &dynd_type_int16;
  case 9: return &dynd_type_int32;
  case 10: return &dynd_type_int64;
  default: return &dynd_type_size_t;
  }
}
static size_t m_primitive_size(void *t) { return ((dynd_type_primitive *)t)->typemeta.size; }
static void *m_prim_ctor(void) { return &dynd_type_make_primitive; }
static void *m_buffer_make(size_t n) { return dynd_malloc_buffer(n); }
static void *m_buffer_base(void *b, size_t *size) {
  *size = ((dynd_buffer *)b)->allocated.size;
  return ((dynd_buffer *)b)->allocated.base_ptr;
}
static void m_buffer_release(void *b) { ((dynd_buffer *)b)->resource.release(&((dynd_buffer *)b)->resource); }

typedef struct {
  dynd_refcounted ref;
  void (*released)(void *);
} m_own;
static void m_own_release(dynd_resource *r) dynd_noexcept {
  m_own *o = (m_own *)((char *)r - offsetof(m_own, ref) - offsetof(dynd_refcounted, resource));
  void (*released)(void *) = o->released;
  released(o);
  free(o);
}
static void *m_own_make(size_t extra, void (*released)(void *)) {
  m_own *o = (m_own *)malloc(sizeof(m_own) + extra);
  dynd_atomic_store(&o->ref.refcount, (dynd_size_t)1u, dynd_memory_order_relaxed);
  o->ref.resource.release = m_own_release;
  o->released = released;
  return o;
}
static size_t m_atomic(int op, void *cell, size_t v) {
  dynd_atomic_size_t *a = (dynd_atomic_size_t *)cell;
  switch (op) {
  case 0: return dynd_atomic_fetch_add(a, v, dynd_memory_order_relaxed);
  case 1: return dynd_atomic_fetch_sub(a, v, dynd_memory_order_release);
  case 2: return dynd_atomic_fetch_add(a, v, dynd_memory_order_acq_rel);
  case 3: dynd_atomic_store(a, v, dynd_memory_order_release); return v;
  case 4: dynd_atomic_thread_fence(dynd_memory_order_acquire); return dynd_atomic_load(a, dynd_memory_order_acquire);
  default: return dynd_atomic_load(a, dynd_memory_order_relaxed);
  }
}
static void m_layout(size_t *out) {
  int i = 0;
#define P(x) out[i++] = (x)
  P(sizeof(dynd_refcounted)); P(offsetof(dynd_refcounted, resource)); P(sizeof(dynd_resource));
  P(sizeof(dynd_allocated)); P(offsetof(dynd_allocated, size));
  P(sizeof(dynd_buffer)); P(offsetof(dynd_buffer, allocated));
  P(sizeof(dynd_type)); P(offsetof(dynd_type, header)); P(offsetof(dynd_type_header, vtable)); P(offsetof(dynd_type_header, constructor));
  P(sizeof(dynd_vtable)); P(sizeof(dynd_type_vtable)); P(offsetof(dynd_type_vtable, entries));
  P(sizeof(dynd_type_constructor)); P(sizeof(dynd_type_constructor_vtable));
  P(sizeof(dynd_type_primitive)); P(offsetof(dynd_type_primitive, typemeta));
  P(sizeof(dynd_type_dense_concrete)); P(sizeof(dynd_type_sparse_concrete)); P(sizeof(dynd_type_tuple_concrete_header));
  P(sizeof(dynd_type_dense_arrmeta)); P(sizeof(dynd_type_sparse_arrmeta)); P(sizeof(dynd_type_tuple_arrmeta_header));
  P(sizeof(dynd_array)); P(offsetof(dynd_array, header)); P(offsetof(dynd_array_header, type)); P(offsetof(dynd_array_header, base));
  P(sizeof(dynd_array_ref)); P(sizeof(dynd_type_ref)); P(sizeof(dynd_atomic_size_t)); P(sizeof(dynd_size_t));
#undef P
}
static size_t m_version(int w, int header) {
  if (header)
    return (size_t)(w == 0 ? DYND_ABI_HEADER_VERSION_MAJOR : w == 1 ? DYND_ABI_HEADER_VERSION_MINOR : DYND_ABI_HEADER_VERSION_DEBUG);
  return w == 0 ? dynd_abi_library_version_major() : w == 1 ? dynd_abi_library_version_minor() : dynd_abi_library_version_debug();
}
#define M02_STR2(x) #x
#define M02_STR(x) M02_STR2(x)
const m02_client M02_NAME = {
  M02_STR(M02_NAME), m_incref, m_decref, m_count, m_make, m_alignment, m_params, m_superclasses, m_constructor_of,
  m_vtable_of, m_base_of, m_ctor, m_ctor_vtable, m_primitive, m_primitive_size, m_prim_ctor, m_buffer_make,
  m_buffer_base, m_buffer_release, m_own_make, m_atomic, m_layout, m_version };

/* The same client of the C interface, compiled as C11, as C99 and as C++ (see m02_client.inc) */
#ifndef M02_CLIENT_H
#define M02_CLIENT_H
#include <stddef.h>
enum { M02_DENSE, M02_SPARSE, M02_TUPLE, M02_NCTOR };
enum { M02_NPRIM = 12, M02_NLAYOUT = 32 };
typedef struct m02_client {
  const char *name;
  void (*incref)(void *);
  void (*decref)(void *);
  size_t (*count)(void *);
  void *(*make)(int ctor, void **begin, void **end);
  size_t (*alignment)(void *type);
  void **(*params)(void *type, size_t *n);
  size_t (*superclasses)(void *type);
  void *(*constructor_of)(void *type);
  void *(*vtable_of)(void *type);
  void *(*base_of)(void *type, size_t *size);
  void *(*ctor)(int which);
  void *(*ctor_vtable)(int which);
  void *(*primitive)(int which);
  size_t (*primitive_size)(void *type);
  void *(*prim_ctor)(void);
  void *(*buffer_make)(size_t size);
  void *(*buffer_base)(void *buffer, size_t *size);
  void (*buffer_release)(void *buffer);
  /* an object of the client's own: a reference count, a resource, then `extra` bytes; calls `released` once */
  void *(*own_make)(size_t extra, void (*released)(void *));
  /* fetch_add, fetch_sub, store, load of an atomic size: returns the old value where there is one */
  size_t (*atomic)(int op, void *cell, size_t v);
  void (*layout)(size_t *out);
  size_t (*version)(int which, int header);
} m02_client;
#ifdef __cplusplus
extern "C" {
#endif
extern const m02_client m02_client_c11, m02_client_c99;
#ifdef __cplusplus
}
#endif
#endif

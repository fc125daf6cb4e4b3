#ifndef INST_SER_H
#define INST_SER_H
#include <stddef.h>
#include <stdint.h>
typedef struct { const char *name; int w, be; size_t (*f)(uint8_t *buf, uint64_t v); } ser_t;
typedef struct { const char *name; int w, be; size_t (*f)(void *out, uint8_t *buf); } des_t;
extern const ser_t sers[], pcks[];
extern const des_t dess[], unps[]; /* unpackers store an int64_t */
extern const int   nsers, npcks, ndess, nunps;
size_t unpack_expr(uint8_t *buf, int off, int64_t out[3]);
#endif

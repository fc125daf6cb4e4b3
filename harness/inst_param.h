#ifndef INST_PARAM_H
#define INST_PARAM_H
#include <stdint.h>
#include "parameter/parameter.h"
/* Numeric types of parameters, by size; NTYPES depends on the largest size configured. */
enum { T_U8, T_I8, T_U16, T_I16, T_U32, T_I32, T_F, T_U64, T_I64, T_D };
#if GEL_PARAMETER_MAX_SIZE >= 8
#define NTYPES 10
#elif GEL_PARAMETER_MAX_SIZE >= 4
#define NTYPES 7
#elif GEL_PARAMETER_MAX_SIZE >= 2
#define NTYPES 4
#else
#define NTYPES 2
#endif
typedef union {
    uint64_t u;
    int64_t  i;
    float    f;
    double   d;
} raw_t; /* integers sign- or zero-extended */
typedef struct {
    raw_t                   min, max, def, step;
    void                   *pmin, *pmax;
    unsigned                lvl;
    GEL_PARAMETER_USER_DATA data;
    void (*hook)(parameter_handle_t *, void *);
    void *arg;
    int   form;
} decl_t;
/* builds a handle through one of the declaration macros */
#define NFORMS 6
parameter_handle_t par_declare(int type, void *ptr, const decl_t *d);
/* a table declared from literals; base points at 16-byte slots */
#define NLIT 37
typedef struct {
    int   type;
    raw_t min, max, def, step;
} lit_t;
int par_literals(parameter_handle_t *out, lit_t *spec, unsigned char *base);
#endif

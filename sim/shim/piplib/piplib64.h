/* Stand-in for piplib64 (submodule absent): same interface, solved by isl in
 * shim.cpp, so that Pluto's own PIP wrapper code runs unmodified. */
#ifndef SIM_PIPLIB64_H
#define SIM_PIPLIB64_H
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef long long Entier;
typedef struct pipmatrix {
  unsigned NbRows, NbColumns;
  Entier **p;
  Entier *p_Init;
  int p_Init_size;
} PipMatrix;
typedef struct pipvector {
  int nb_elements;
  Entier *the_vector;
  Entier *the_deno;
} PipVector;
typedef struct piplist {
  PipVector *vector;
  struct piplist *next;
} PipList;
typedef struct pipquast {
  void *newparm;
  PipList *list;
  PipVector *condition;
  struct pipquast *next_then, *next_else, *father;
} PipQuast;
typedef struct pipoptions {
  int Nq, Verbose, Simplify, Deepest_cut, Maximize, Urs_parms, Urs_unknowns,
      Compute_dual;
} PipOptions;
PipMatrix *pip_matrix_alloc(unsigned rows, unsigned cols);
void pip_matrix_free(PipMatrix *m);
PipOptions *pip_options_init(void);
void pip_options_free(PipOptions *o);
PipQuast *pip_solve(PipMatrix *dom, PipMatrix *ctx, int bignum, PipOptions *o);
void pip_quast_free(PipQuast *q);
#ifdef __cplusplus
}
#endif
#endif

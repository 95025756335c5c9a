// Stand-ins for the libraries whose submodules are absent here: piplib (solved
// with isl) and three functions of Pluto's isl fork.
#include "absent_isl.h"
#include "piplib/piplib64.h"
#include <cstdlib>
#include <isl/constraint.h>
#include <isl/ctx.h>
#include <isl/map.h>
#include <isl/options.h>
#include <isl/point.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/val.h>

static isl_map *only_dim(isl_map *map, unsigned pos) {
  isl_map *m = isl_map_copy(map);
  int n = (int)isl_map_dim(m, isl_dim_out);
  if ((int)pos + 1 < n)
    m = isl_map_project_out(m, isl_dim_out, pos + 1, n - pos - 1);
  if (pos > 0)
    m = isl_map_project_out(m, isl_dim_out, 0, pos);
  return m;
}
extern "C" isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos) {
  isl_map *m = only_dim(map, pos);
  isl_bool r = isl_map_is_single_valued(m);
  isl_map_free(m);
  return r;
}
extern "C" isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos) {
  isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(only_dim(map, pos));
  isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
  isl_pw_multi_aff_free(pma);
  return pa;
}
extern "C" isl_basic_map *
isl_basic_map_range_factor_domain(isl_basic_map *bmap) {
  // The result has no existentially quantified variables: what is lost by
  // that is an over-approximation, as everywhere in the extraction.
  isl_map *m = isl_map_range_factor_domain(isl_map_from_basic_map(bmap));
  return isl_basic_map_remove_divs(isl_map_simple_hull(m));
}

extern "C" PipMatrix *pip_matrix_alloc(unsigned r, unsigned c) {
  PipMatrix *m = (PipMatrix *)calloc(1, sizeof *m);
  m->NbRows = r, m->NbColumns = c;
  m->p_Init_size = (int)(r * c);
  m->p_Init = (Entier *)calloc(r * c + 1, sizeof(Entier));
  m->p = (Entier **)calloc(r + 1, sizeof(Entier *));
  for (unsigned i = 0; i < r; i++)
    m->p[i] = m->p_Init + i * c;
  return m;
}
extern "C" void pip_matrix_free(PipMatrix *m) {
  if (!m)
    return;
  free(m->p), free(m->p_Init), free(m);
}
extern "C" PipOptions *pip_options_init(void) {
  return (PipOptions *)calloc(1, sizeof(PipOptions));
}
extern "C" void pip_options_free(PipOptions *o) { free(o); }
extern "C" void pip_quast_free(PipQuast *q) {
  if (!q)
    return;
  for (PipList *l = q->list; l;) {
    PipList *n = l->next;
    free(l->vector->the_vector), free(l->vector->the_deno), free(l->vector);
    free(l), l = n;
  }
  free(q);
}
extern "C" PipQuast *pip_solve(PipMatrix *dom, PipMatrix *, int,
                               PipOptions *o) {
  // Like piplib, end the program when out of memory.
  isl_ctx *ctx = isl_ctx_alloc();
  if (!ctx)
    abort();
  isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT);
  unsigned n = dom->NbColumns - 2;
  isl_space *sp = isl_space_set_alloc(ctx, 0, n);
  isl_local_space *ls = isl_local_space_from_space(isl_space_copy(sp));
  isl_basic_set *bs = isl_basic_set_universe(sp);
  for (unsigned i = 0; i < dom->NbRows; i++) {
    Entier *row = dom->p[i];
    isl_constraint *c =
        row[0] ? isl_constraint_alloc_inequality(isl_local_space_copy(ls))
               : isl_constraint_alloc_equality(isl_local_space_copy(ls));
    for (unsigned j = 0; j < n; j++)
      c = isl_constraint_set_coefficient_val(c, isl_dim_set, (int)j,
                                             isl_val_int_from_si(ctx, row[j + 1]));
    c = isl_constraint_set_constant_val(c,
                                        isl_val_int_from_si(ctx, row[n + 1]));
    bs = isl_basic_set_add_constraint(bs, c);
  }
  isl_local_space_free(ls);
  isl_set *s = isl_set_from_basic_set(bs);
  PipQuast *q = (PipQuast *)calloc(1, sizeof *q);
  isl_point *p = nullptr;
  if (o->Urs_unknowns) {
    // Only (in)feasibility is asked for with negative unknowns.
    if (isl_set_is_empty(s) == isl_bool_false)
      p = isl_set_sample_point(isl_set_copy(s));
    isl_set_free(s);
  } else {
    s = isl_set_intersect(s, isl_set_from_basic_set(isl_basic_set_positive_orthant(
                                 isl_set_get_space(s))));
    s = isl_set_lexmin(s);
    if (isl_set_is_empty(s) == isl_bool_false)
      p = isl_set_sample_point(isl_set_copy(s));
    isl_set_free(s);
  }
  if (p) {
    PipList **tail = &q->list;
    for (unsigned j = 0; j < n; j++) {
      isl_val *v = isl_point_get_coordinate_val(p, isl_dim_set, (int)j);
      PipList *l = (PipList *)calloc(1, sizeof *l);
      l->vector = (PipVector *)calloc(1, sizeof(PipVector));
      l->vector->nb_elements = 1;
      l->vector->the_vector = (Entier *)calloc(1, sizeof(Entier));
      l->vector->the_deno = (Entier *)calloc(1, sizeof(Entier));
      // What does not fit was not asked for: see above.
      double big = isl_val_get_d(v);
      l->vector->the_vector[0] = big > -9e18 && big < 9e18 ? isl_val_get_num_si(v) : 0;
      l->vector->the_deno[0] = 1;
      isl_val_free(v);
      *tail = l, tail = &l->next;
    }
    isl_point_free(p);
  }
  isl_ctx_free(ctx);
  return q;
}

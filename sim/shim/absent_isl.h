/* The isl-fork functions Pluto calls and apt's isl lacks; defined in shim.cpp
 * on top of apt's isl. */
#ifndef SIM_ABSENT_ISL_H
#define SIM_ABSENT_ISL_H
#include "isl/aff.h"
#include "isl/map.h"
#ifdef __cplusplus
extern "C" {
#endif
isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos);
isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos);
isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap);
#ifdef __cplusplus
}
#endif
#endif

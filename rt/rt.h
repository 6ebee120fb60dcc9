/* Generic interpreter of workload scripts; the per-specification part is generated (drv.c). */
#pragma once
#include "ccn/ccn.h"
#include "ccngen/ast.h"
#include "ccngen/enum.h"
#include "ccngen/trav.h"
#include "ccngen/trav_data.h"
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>

enum { K_INT, K_UINT, K_FLOAT, K_DOUBLE, K_BOOL, K_STRING, K_ENUM, K_LINK, K_USER, K_AG };

/* generated */
extern const int rt_ntypes;
extern const char *const rt_typename[];
extern const int rt_nchildren[];
extern const int rt_nattrs[];
int rt_typeof(node_st *n);                      /* -1 if the node type is unknown */
node_st **rt_child(node_st *n, int i);          /* through the access macro */
node_st *rt_travchild(node_st *n, int i);       /* TRAV<child>(n) */
node_st *rt_construct(int type, node_st **kids, const int64_t *vals, node_st **links);
void rt_attr_set(node_st *n, int i, int64_t v, node_st *link);
int rt_attr_kind(node_st *n, int i);
void rt_attr_log(node_st *n, int i);
char *rt_attr_str(node_st *n, int i);           /* string attribute or NULL */
node_st *rt_attr_link(node_st *n, int i);
int rt_cur_trav(void);                          /* index of the current traversal or -1 */
enum ccn_traversal_type rt_trav_type(int t);
void rt_td_write(int t, int f, int64_t v, node_st *link);
void rt_td_log(int t);
int rt_td_count(int t);
void rt_evaluate(node_st *n);

/* provided */
node_st *rt_handler(int trav, int type, node_st *n);
node_st *rt_pass(int pass, node_st *n);
bool rt_gate(int gate);
void rt_init(int trav);
void rt_fini(int trav);
int rt_id(node_st *n);
void rt_put(const char *fmt, ...);
void rt_endl(void);
void rt_putstr(const char *s);
void rt_putd(double d);
void rt_putf(float f);
char *rt_mkstr(int64_t v);                      /* fresh string or NULL */
const char *rt_cstr(int64_t v);
float rt_mkfloat(int64_t v);
double rt_mkdouble(int64_t v);
/* attribute equations: log the call, the value is a hash of the logged line */
void rt_eq_begin(int eq, int mask);
int64_t rt_eq_end(void);
void rt_ag_log(node_st *n);                     /* generated: all grammar attributes, through all accessors */
void rt_sa_log(node_st *n);                     /* generated: classic node set attributes, through all accessors */
void rt_sa_set(node_st *n, int i, int64_t v, node_st *link, unsigned k);

/* Contracts of the functions that gendot_loop calls through pointers, as executable text: "a loop of an
   element-wise ufunc", "a loop of a gufunc with signature (n)->()".  The functions gdp_*, gds_*, gdg_*, ... are
   external and left uninterpreted: what is proved holds for every function.  The text of the code under test is
   included unchanged; the verifier inlines it into the entry points below. */
#include "gendot/gendotmodule.c"

static char gd_prod_data, gd_sum_data;
extern void gd_wrong_data(void);        /* has no contract: a reachable call is rejected */

#define PROD(NAME, T1, T2, T3)                                                                            \
extern T3 gdp_##NAME(T1, T2);                                                                             \
static void prod_##NAME(char **args, const npy_intp *dimensions, const npy_intp *steps, void *data)      \
{                                                                                                        \
    if (data != &gd_prod_data) gd_wrong_data();                                                           \
    for (npy_intp i = 0; i < dimensions[0]; ++i)                                                          \
        *(T3 *)(args[2] + i*steps[2]) = gdp_##NAME(*(T1 *)(args[0] + i*steps[0]), *(T2 *)(args[1] + i*steps[1])); \
}

#define ENTRY(NAME, T3, T4, NIN, HASID, SUM)                                                              \
extern T4 gdi_##NAME(void);                                                                               \
void gd_entry_##NAME(char **args, const npy_intp *dimensions, const npy_intp *steps, void *unused)        \
{                                                                                                        \
    gendot_data_t d;                                                                                      \
    T4 id = gdi_##NAME();                                                                                  \
    d.prodfunc_loop = (PyUFuncGenericFunction *) prod_##NAME;                                             \
    d.prodfunc_loop_data = &gd_prod_data;                                                                 \
    d.prodfunc_out_itemsize = sizeof(T3);                                                                 \
    d.sumfunc_loop = (PyUFuncGenericFunction *) SUM;                                                      \
    d.sumfunc_loop_data = &gd_sum_data;                                                                   \
    d.sumfunc_loop_itemsize = sizeof(T4);                                                                 \
    d.sumfunc_nin = NIN;                                                                                  \
    d.sumfunc_has_identity = HASID;                                                                       \
    *(T4 *) d.sumfunc_identity_buffer = id;                                                               \
    gendot_loop(args, dimensions, steps, &d);                                                             \
}

#define ELEMENTWISE(NAME, T1, T2, T3, HASID)                                                              \
PROD(NAME, T1, T2, T3)                                                                                    \
extern T3 gds_##NAME(T3, T3);                                                                             \
static void sum_##NAME(char **args, const npy_intp *dimensions, const npy_intp *steps, void *data)       \
{                                                                                                        \
    if (data != &gd_sum_data) gd_wrong_data();                                                            \
    for (npy_intp i = 0; i < dimensions[0]; ++i)                                                          \
        *(T3 *)(args[2] + i*steps[2]) = gds_##NAME(*(T3 *)(args[0] + i*steps[0]), *(T3 *)(args[1] + i*steps[1])); \
}                                                                                                        \
ENTRY(NAME, T3, T3, 2, HASID, sum_##NAME)

#define GUFUNC(NAME, T1, T2, T3, T4, HASID)                                                               \
PROD(NAME, T1, T2, T3)                                                                                    \
extern npy_int64 gdg0_##NAME(void);                                                                       \
extern npy_int64 gdg_##NAME(npy_int64, T3);                                                               \
extern T4 gdgf_##NAME(npy_int64);                                                                         \
static void sum_##NAME(char **args, const npy_intp *dimensions, const npy_intp *steps, void *data)       \
{                                                                                                        \
    if (data != &gd_sum_data) gd_wrong_data();                                                            \
    for (npy_intp i = 0; i < dimensions[0]; ++i) {                                                        \
        npy_int64 acc = gdg0_##NAME();                                                                     \
        for (npy_intp k = 0; k < dimensions[1]; ++k)                                                      \
            acc = gdg_##NAME(acc, *(T3 *)(args[0] + i*steps[0] + k*steps[2]));                            \
        *(T4 *)(args[1] + i*steps[1]) = gdgf_##NAME(acc);                                                 \
    }                                                                                                    \
}                                                                                                        \
ENTRY(NAME, T3, T4, 1, HASID, sum_##NAME)

/* one instance per element size that the table of loops can contain (1, 2, 4, 8, 16), with operands of other sizes */
ELEMENTWISE(e1, double, float, npy_byte, 1)
ELEMENTWISE(e2, float, npy_int, npy_short, 1)
ELEMENTWISE(e4, npy_short, double, float, 1)
ELEMENTWISE(e8, float, npy_byte, double, 1)
ELEMENTWISE(e8n, npy_int, float, double, 0)
ELEMENTWISE(e16, double, float, npy_longdouble, 1)
GUFUNC(g1, double, float, npy_byte, npy_long, 1)
GUFUNC(g4, npy_short, double, float, npy_byte, 1)
GUFUNC(g8, float, npy_byte, double, float, 1)
GUFUNC(g8n, npy_int, float, double, npy_long, 0)
GUFUNC(g16, double, float, npy_longdouble, double, 1)

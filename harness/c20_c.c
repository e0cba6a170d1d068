/* The C interface used from C: every function linked, the constants as C sees them, and one complete program. */
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include <stdlib.h>
#include <string.h>

typedef void (*fn)(void);
fn c20_all[] = {
  (fn)PIOL_ExSeis_new, (fn)PIOL_ExSeis_delete, (fn)PIOL_ExSeis_getRank, (fn)PIOL_ExSeis_getNumRank, (fn)PIOL_ExSeis_isErr,
  (fn)PIOL_ExSeis_barrier, (fn)PIOL_ExSeis_max, (fn)PIOL_SEGY_utils_getTextSz, (fn)PIOL_SEGY_utils_getFileSz,
  (fn)PIOL_SEGY_utils_getDFSz, (fn)PIOL_SEGY_utils_getMDSz, (fn)PIOL_File_Rule_new, (fn)PIOL_File_Rule_new_from_list,
  (fn)PIOL_File_Rule_delete, (fn)PIOL_File_Rule_addRule_Meta, (fn)PIOL_File_Rule_addRule_Rule, (fn)PIOL_File_Rule_addLong,
  (fn)PIOL_File_Rule_addShort, (fn)PIOL_File_Rule_addSEGYFloat, (fn)PIOL_File_Rule_addIndex, (fn)PIOL_File_Rule_addCopy,
  (fn)PIOL_File_Rule_rmRule, (fn)PIOL_File_Rule_extent, (fn)PIOL_File_Rule_memUsage, (fn)PIOL_File_Rule_paramMem,
  (fn)PIOL_File_Param_new, (fn)PIOL_File_Param_delete, (fn)PIOL_File_Param_size, (fn)PIOL_File_Param_memUsage,
  (fn)PIOL_File_getPrm_short, (fn)PIOL_File_getPrm_Integer, (fn)PIOL_File_getPrm_double, (fn)PIOL_File_setPrm_short,
  (fn)PIOL_File_setPrm_Integer, (fn)PIOL_File_setPrm_double, (fn)PIOL_File_cpyPrm, (fn)PIOL_File_getMinMax,
  (fn)PIOL_File_ReadDirect_new, (fn)PIOL_File_WriteDirect_new, (fn)PIOL_File_ReadDirect_delete, (fn)PIOL_File_WriteDirect_delete,
  (fn)PIOL_File_ReadDirect_readText, (fn)PIOL_File_ReadDirect_readNs, (fn)PIOL_File_ReadDirect_readNt, (fn)PIOL_File_ReadDirect_readInc,
  (fn)PIOL_File_WriteDirect_writeText, (fn)PIOL_File_WriteDirect_writeNs, (fn)PIOL_File_WriteDirect_writeNt,
  (fn)PIOL_File_WriteDirect_writeInc, (fn)PIOL_File_WriteDirect_writeParam, (fn)PIOL_File_ReadDirect_readParam,
  (fn)PIOL_File_ReadDirect_readTrace, (fn)PIOL_File_WriteDirect_writeTrace, (fn)PIOL_File_ReadDirect_readTraceNonContiguous,
  (fn)PIOL_File_ReadDirect_readTraceNonMonotonic, (fn)PIOL_File_WriteDirect_writeTraceNonContiguous,
  (fn)PIOL_File_WriteDirect_writeParamNonContiguous, (fn)PIOL_File_ReadDirect_readParamNonContiguous,
  (fn)PIOL_Set_new, (fn)PIOL_Set_delete, (fn)PIOL_Set_getMinMax, (fn)PIOL_Set_sort, (fn)PIOL_Set_sort_fn, (fn)PIOL_Set_taper,
  (fn)PIOL_Set_output, (fn)PIOL_Set_text, (fn)PIOL_Set_summary, (fn)PIOL_Set_add, (fn)PIOL_Set_AGC,
  (fn)exseis_block_decomposition, (fn)exseis_taper, (fn)exseis_AGC, (fn)exseis_linear_taper, (fn)exseis_cosine_taper,
  (fn)exseis_cosine_square_taper, (fn)exseis_rectangular_RMS_gain, (fn)exseis_triangular_RMS_gain, (fn)exseis_mean_abs_gain,
  (fn)exseis_median_gain};

exseis_Taper_function c20_taper(int k) { return k == 0 ? exseis_linear_taper : k == 1 ? exseis_cosine_taper : exseis_cosine_square_taper; }
exseis_Gain_function c20_gain(int k) { return k == 0 ? exseis_rectangular_RMS_gain : k == 1 ? exseis_triangular_RMS_gain : k == 2 ? exseis_mean_abs_gain : exseis_median_gain; }

/* A comparison of one's own, in C: by source x, then in-line descending. */
bool c20_less(const PIOL_File_Param* p, size_t i, size_t j)
{
    double a = PIOL_File_getPrm_double(i, PIOL_META_xSrc, p), b = PIOL_File_getPrm_double(j, PIOL_META_xSrc, p);
    if (a != b) return a < b;
    return PIOL_File_getPrm_Integer(i, PIOL_META_il, p) > PIOL_File_getPrm_Integer(j, PIOL_META_il, p);
}

/* Write nt traces of ns samples in blocks of every process, read them back, reverse them on writing to a second file.
   Returns 0, or the number of the step which went wrong. */
int c20_program(const char* one, const char* two, const char* text, size_t nt, size_t ns, double inc, double x0)
{
    PIOL_ExSeis* piol = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
    size_t rank = PIOL_ExSeis_getRank(piol), np = PIOL_ExSeis_getNumRank(piol);
    struct exseis_Contiguous_decomposition dec = exseis_block_decomposition(nt, np, rank);
    size_t off = dec.global_offset, n = dec.local_size, i, j;
    int bad = 0;
    PIOL_File_Rule* rule = PIOL_File_Rule_new(true);
    PIOL_File_Param* prm = PIOL_File_Param_new(rule, n);
    PIOL_File_Param* back = PIOL_File_Param_new(rule, n);
    exseis_Trace_value* t = (exseis_Trace_value*)malloc((n * ns + 1) * sizeof *t);
    size_t* list = (size_t*)malloc((n + 1) * sizeof *list);
    PIOL_File_WriteDirect* w;
    PIOL_File_ReadDirect* r;
    PIOL_File_Rule_delete(rule);
    for (i = 0; i < n; i++) {
        PIOL_File_setPrm_double(i, PIOL_META_xSrc, x0 + (double)(off + i), prm);
        PIOL_File_setPrm_Integer(i, PIOL_META_il, (exseis_Integer)(off + i) * 3, prm);
        for (j = 0; j < ns; j++) t[i * ns + j] = (exseis_Trace_value)((off + i) * ns + j) + 0.5f;
    }
    w = PIOL_File_WriteDirect_new(piol, one);
    PIOL_File_WriteDirect_writeText(w, text);
    PIOL_File_WriteDirect_writeNs(w, ns);
    PIOL_File_WriteDirect_writeNt(w, nt);
    PIOL_File_WriteDirect_writeInc(w, inc);
    PIOL_File_WriteDirect_writeTrace(w, off, n, t, prm);
    PIOL_File_WriteDirect_delete(w);
    PIOL_ExSeis_isErr(piol, NULL);
    PIOL_ExSeis_barrier(piol);
    r = PIOL_File_ReadDirect_new(piol, one);
    if (PIOL_File_ReadDirect_readNt(r) != nt) bad = 1;
    if (PIOL_File_ReadDirect_readNs(r) != ns) bad = 2;
    if (strncmp(PIOL_File_ReadDirect_readText(r), text, strlen(text)) != 0) bad = 3;
    if (PIOL_File_ReadDirect_readInc(r) < inc * 0.999999 || PIOL_File_ReadDirect_readInc(r) > inc * 1.000001) bad = 4;
    memset(t, 0xff, (n * ns + 1) * sizeof *t);
    for (i = 0; i < n; i++) list[i] = nt - 1 - (off + n - 1 - i);
    /* the traces which go to the places of this process's in a reversed file, in ascending order */
    PIOL_File_ReadDirect_readTraceNonContiguous(r, n, list, t, back);
    for (i = 0; i < n && !bad; i++) {
        if (PIOL_File_getPrm_Integer(i, PIOL_META_il, back) != (exseis_Integer)list[i] * 3) bad = 5;
        if (PIOL_File_getPrm_double(i, PIOL_META_xSrc, back) != x0 + (double)list[i]) bad = 6;
        for (j = 0; j < ns; j++) if (t[i * ns + j] != (exseis_Trace_value)(list[i] * ns + j) + 0.5f) bad = 7;
    }
    w = PIOL_File_WriteDirect_new(piol, two);
    PIOL_ExSeis_delete(piol);
    PIOL_File_WriteDirect_writeNs(w, ns);
    PIOL_File_WriteDirect_writeInc(w, inc);
    /* reversed: trace list[i] of the first file becomes trace nt-1-list[i] */
    for (i = 0; i < n; i++) list[i] = nt - 1 - list[i];
    for (i = 0; i < n / 2; i++) {
        size_t o = list[i]; list[i] = list[n - 1 - i]; list[n - 1 - i] = o;
        for (j = 0; j < ns; j++) { exseis_Trace_value v = t[i * ns + j]; t[i * ns + j] = t[(n - 1 - i) * ns + j]; t[(n - 1 - i) * ns + j] = v; }
    }
    for (i = 0; i < n; i++) PIOL_File_cpyPrm(i, back, n - 1 - i, prm);
    PIOL_File_WriteDirect_writeTraceNonContiguous(w, n, list, t, prm);
    PIOL_File_ReadDirect_delete(r);
    PIOL_File_WriteDirect_delete(w);
    PIOL_File_Param_delete(prm);
    PIOL_File_Param_delete(back);
    free(t);
    free(list);
    return bad;
}

// Stand-in for postgres.h, fmgr.h and utils/*.h: what a C-language function of the
// server sees.  Values are passed and errors raised as PostgreSQL 12 does.
#ifndef VERIF_PG_POSTGRES_H_
#define VERIF_PG_POSTGRES_H_
#include <setjmp.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef uintptr_t Datum;
typedef double float8;
typedef float float4;
typedef int16_t int16;
typedef int32_t int32;
typedef int64_t int64;
typedef uint32_t uint32;
typedef uint64_t uint64;
typedef size_t Size;
typedef char* Pointer;
typedef unsigned int Oid;
#ifndef __cplusplus
typedef _Bool bool;
#endif

typedef struct NullableDatum {
  Datum value;
  bool isnull;
} NullableDatum;

typedef struct FmgrInfo {
  void* fn_extra;
} FmgrInfo;
typedef struct FunctionCallInfoBaseData {
  FmgrInfo* flinfo;
  void* context;  // what kind of call the simulated executor makes
  void* resultinfo;
  Oid fncollation;
  bool isnull;
  short nargs;
  NullableDatum args[8];
} FunctionCallInfoBaseData;
typedef FunctionCallInfoBaseData* FunctionCallInfo;

#define PG_FUNCTION_ARGS FunctionCallInfo fcinfo
#define PG_MODULE_MAGIC extern int pg_magic_dummy
typedef struct {
  int api_version;
} Pg_finfo_record;
#define PG_FUNCTION_INFO_V1(name)                            \
  extern Datum name(PG_FUNCTION_ARGS);                       \
  const Pg_finfo_record* pg_finfo_##name(void) {             \
    static const Pg_finfo_record my_finfo = {1};             \
    return &my_finfo;                                        \
  }                                                          \
  extern int no_such_variable

static inline Datum Float8GetDatum(float8 x) {
  Datum d;
  memcpy(&d, &x, sizeof d);
  return d;
}
static inline float8 DatumGetFloat8(Datum d) {
  float8 x;
  memcpy(&x, &d, sizeof x);
  return x;
}
#define Int64GetDatum(x) ((Datum)(int64)(x))
#define DatumGetInt64(x) ((int64)(x))
#define Int32GetDatum(x) ((Datum)(int32)(x))
#define DatumGetInt32(x) ((int32)(x))
#define Int16GetDatum(x) ((Datum)(int16)(x))
#define DatumGetInt16(x) ((int16)(x))
#define PointerGetDatum(x) ((Datum)(x))
#define DatumGetPointer(x) ((Pointer)(x))
#define BoolGetDatum(x) ((Datum)((x) ? 1 : 0))
#define DatumGetBool(x) ((bool)(((x) & 0xff) != 0))

#define PG_NARGS() (fcinfo->nargs)
#define PG_ARGISNULL(n) (fcinfo->args[n].isnull)
#define PG_GETARG_DATUM(n) (fcinfo->args[n].value)
#define PG_GETARG_FLOAT8(n) DatumGetFloat8(PG_GETARG_DATUM(n))
#define PG_GETARG_INT64(n) DatumGetInt64(PG_GETARG_DATUM(n))
#define PG_GETARG_INT32(n) DatumGetInt32(PG_GETARG_DATUM(n))
#define PG_GETARG_INT16(n) DatumGetInt16(PG_GETARG_DATUM(n))
#define PG_GETARG_BOOL(n) DatumGetBool(PG_GETARG_DATUM(n))
#define PG_GETARG_POINTER(n) DatumGetPointer(PG_GETARG_DATUM(n))
#define PG_RETURN_DATUM(x) return (x)
#define PG_RETURN_POINTER(x) return PointerGetDatum(x)
#define PG_RETURN_INT64(x) return Int64GetDatum(x)
#define PG_RETURN_FLOAT8(x) return Float8GetDatum(x)
#define PG_RETURN_INT32(x) return Int32GetDatum(x)
#define PG_RETURN_INT16(x) return Int16GetDatum(x)
#define PG_RETURN_BOOL(x) return BoolGetDatum(x)
#define PG_RETURN_VOID() return (Datum)0
#define PG_RETURN_NULL()   \
  do {                     \
    fcinfo->isnull = true; \
    return (Datum)0;       \
  } while (0)

#define Assert(x) ((void)0)
#define INT64CONST(x) (x##L)
#define PG_INT16_MIN (-0x7FFF - 1)
#define PG_INT16_MAX (0x7FFF)
#define PG_INT32_MIN (-0x7FFFFFFF - 1)
#define PG_INT32_MAX (0x7FFFFFFF)
#define PG_INT64_MIN (-INT64CONST(0x7FFFFFFFFFFFFFFF) - 1)
#define PG_INT64_MAX INT64CONST(0x7FFFFFFFFFFFFFFF)
#define likely(x) __builtin_expect((x) != 0, 1)
#define unlikely(x) __builtin_expect((x) != 0, 0)

// --- errors
#define DEBUG1 14
#define LOG 15
#define INFO 17
#define NOTICE 18
#define WARNING 19
#define ERROR 20
#define FATAL 21
#define ERRCODE_INVALID_PARAMETER_VALUE 0x1001
#define ERRCODE_NULL_VALUE_NOT_ALLOWED 0x1002
#define ERRCODE_NUMERIC_VALUE_OUT_OF_RANGE 0x1003
#define ERRCODE_FEATURE_NOT_SUPPORTED 0x1004
#define ERRCODE_INTERNAL_ERROR 0x1005
#define ERRCODE_OUT_OF_MEMORY 0x1006
#define ERRCODE_INVALID_ARGUMENT_FOR_NTILE 0x1007
#define ERRCODE_DATA_EXCEPTION 0x1008
#define ERRCODE_OBJECT_NOT_IN_PREREQUISITE_STATE 0x1009
#define ERRCODE_INVALID_FUNCTION_DEFINITION 0x100a
extern void pgsim_err_start(int level);
extern void pgsim_err_finish(void);
extern int errcode(int code);
extern int errmsg(const char* fmt, ...);
extern int errmsg_internal(const char* fmt, ...);
extern int errdetail(const char* fmt, ...);
extern int errhint(const char* fmt, ...);
#define ereport(level, ...)           \
  do {                                \
    pgsim_err_start(level);           \
    (void)(__VA_ARGS__);              \
    pgsim_err_finish();               \
    if ((level) >= ERROR) abort();    \
  } while (0)
#define elog(level, ...) ereport(level, errmsg(__VA_ARGS__))

// --- memory
typedef struct MemoryContextData* MemoryContext;
typedef void (*MemoryContextCallbackFunction)(void* arg);
typedef struct MemoryContextCallback {
  MemoryContextCallbackFunction func;
  void* arg;
  struct MemoryContextCallback* next;
} MemoryContextCallback;
extern void* MemoryContextAlloc(MemoryContext context, Size size);
extern void* MemoryContextAllocZero(MemoryContext context, Size size);
extern void MemoryContextRegisterResetCallback(MemoryContext context, MemoryContextCallback* cb);
extern MemoryContext MemoryContextSwitchTo(MemoryContext context);
extern void* palloc(Size size);
extern void* palloc0(Size size);
extern void pfree(void* p);

// --- aggregates
#define AGG_CONTEXT_AGGREGATE 1
#define AGG_CONTEXT_WINDOW 2
extern int AggCheckCallContext(FunctionCallInfo fcinfo, MemoryContext* aggcontext);
#endif

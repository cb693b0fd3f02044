/* Tables that describe generated protobuf code (C29). */
#ifndef SCHEMA_H
#define SCHEMA_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*SFn)(void);
/* the order of Kind in h_proto.cpp, then enum and message */
enum { Z_I32, Z_U32, Z_I64, Z_U64, Z_S32, Z_S64, Z_SF32, Z_F32, Z_SF64, Z_F64, Z_FLT, Z_DBL, Z_BOOL, Z_STR, Z_BYTES, Z_ENUM, Z_MSG };
enum { Q_OPT, Q_REQ, Q_REP, Q_PACKED };
struct SField {
    const char *name; int kind, qual, tag, sub;
    SFn clear, has, get, set, count, get_at, get_size, get_size_at, add, insert, get_new;
};
struct SMsg { const char *name; int n; const struct SField *f; SFn make, destroy, write, read; };
struct SConst { const char *name; unsigned long value, expect; };
struct SSchema { const char *name; int nmsgs; const struct SMsg *m; int nconsts; const struct SConst *c; };
extern const struct SSchema *const schema_list[];
extern const int schema_count;
#ifdef __cplusplus
}
#endif
#endif

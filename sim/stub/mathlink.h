// Simulated Wolfram symbolic transfer protocol (declarations used by the
// library, plus the neighbouring functions a maintainer may switch to).
#pragma once
#include <cstddef>
#include <cstdint>
typedef struct MLSimLink* MLINK;
typedef int mlint;
typedef long mlapi_result;
#ifndef MLTKFUNC
#define MLTKFUNC 'F'
#define MLTKINT '+'
#define MLTKREAL '*'
#define MLTKSTR '"'
#define MLTKSYM '#'
#define MLTKERR 0
#endif
#define MLEOK 0
#define MLEDEAD 1
#define MLEGBAD 2
#define MLEGSEQ 3
#define MLEPBTK 4
#define MLEPSEQ 5
#define MLEUSER 1000
extern "C" {
int MLPutSymbol(MLINK, const char*);
int MLPutUTF8Symbol(MLINK, const unsigned char*, int);
int MLPutString(MLINK, const char*);
int MLPutUTF8String(MLINK, const unsigned char*, int);
int MLPutByteString(MLINK, const unsigned char*, int);
int MLPutByteSymbol(MLINK, const unsigned char*, int);
int MLPutInteger(MLINK, int);
int MLPutInteger32(MLINK, int);
int MLPutInteger64(MLINK, int64_t);
int MLPutLongInteger(MLINK, long);
int MLPutReal(MLINK, double);
int MLPutReal64(MLINK, double);
int MLPutDouble(MLINK, double);
int MLPutFunction(MLINK, const char*, int);
int MLPutUTF8Function(MLINK, const unsigned char*, int, int);
int MLPutRealList(MLINK, const double*, int);
int MLPutReal64List(MLINK, const double*, int);
int MLPutIntegerList(MLINK, const int*, int);
int MLPutInteger32List(MLINK, const int*, int);
int MLPutDoubleArray(MLINK, const double*, const long*, const char**, long);
int MLPutRealArray(MLINK, const double*, const long*, const char**, long);
int MLPutReal64Array(MLINK, const double*, const int*, const char**, int);
int MLPutNext(MLINK, int);
int MLPutArgCount(MLINK, int);
int MLPutType(MLINK, int);
int MLGetReal64(MLINK, double*);
int MLGetReal(MLINK, double*);
int MLGetDouble(MLINK, double*);
int MLGetInteger(MLINK, int*);
int MLGetInteger32(MLINK, int*);
int MLGetInteger64(MLINK, int64_t*);
int MLGetReal64List(MLINK, double**, int*);
int MLGetRealList(MLINK, double**, long*);
void MLReleaseReal64List(MLINK, double*, int);
void MLDisownRealList(MLINK, double*, long);
int MLGetNext(MLINK);
int MLGetType(MLINK);
int MLGetArgCount(MLINK, int*);
int MLGetFunction(MLINK, const char**, int*);
int MLGetSymbol(MLINK, const char**);
int MLGetString(MLINK, const char**);
void MLReleaseSymbol(MLINK, const char*);
void MLReleaseString(MLINK, const char*);
void MLDisownSymbol(MLINK, const char*);
void MLDisownString(MLINK, const char*);
int MLTestHead(MLINK, const char*, int*);
int MLTestHeadWithArgCount(MLINK, const char*, int*);
int MLCheckFunction(MLINK, const char*, long*);
int MLCheckFunctionWithArgCount(MLINK, const char*, long*);
int MLNewPacket(MLINK);
int MLNextPacket(MLINK);
int MLEndPacket(MLINK);
int MLFlush(MLINK);
int MLReady(MLINK);
int MLError(MLINK);
int MLClearError(MLINK);
int MLSetError(MLINK, int);
const char* MLErrorMessage(MLINK);
void MLReleaseErrorMessage(MLINK, const char*);
int MLTransferExpression(MLINK, MLINK);
}

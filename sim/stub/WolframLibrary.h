#pragma once
#include <cstdint>
typedef int64_t mint;
typedef double mreal;
typedef struct st_WolframLibraryData* WolframLibraryData;
#ifndef DLLEXPORT
#define DLLEXPORT
#endif
#define WolframLibraryVersion 5
#define LIBRARY_NO_ERROR 0
#define LIBRARY_TYPE_ERROR 1
#define LIBRARY_RANK_ERROR 2
#define LIBRARY_DIMENSION_ERROR 3
#define LIBRARY_NUMERICAL_ERROR 4
#define LIBRARY_MEMORY_ERROR 5
#define LIBRARY_FUNCTION_ERROR 6

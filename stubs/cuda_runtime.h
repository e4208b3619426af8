// Declarations only: lets the front end type-check /repo/src/Distributed without a CUDA toolkit. Nothing is ever linked.
#pragma once
#include <cstddef>
#include <cstdint>
#include <math.h>
enum cudaError_t { cudaSuccess = 0, cudaErrorNotReady = 600, cudaErrorUnknown = 999 };
struct CUstream_st; typedef CUstream_st* cudaStream_t;
struct CUevent_st; typedef CUevent_st* cudaEvent_t;
struct dim3 { unsigned x, y, z; dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
struct float2 { float x, y; }; struct float3 { float x, y, z; }; struct float4 { float x, y, z, w; };
#define cudaEventDisableTiming 2u
#define __device__
#define __host__
#define __global__
#define __forceinline__ inline
const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaGetLastError();
cudaError_t cudaStreamCreate(cudaStream_t*);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamWaitEvent(cudaStream_t, cudaEvent_t, unsigned = 0);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr);
cudaError_t cudaEventQuery(cudaEvent_t);

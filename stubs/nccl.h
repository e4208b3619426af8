#pragma once
#include <cstddef>
#include "cuda_runtime.h"
#define NCCL_VERSION(X, Y, Z) ((X) * 10000 + (Y) * 100 + (Z))
#define NCCL_VERSION_CODE 22000
#define NCCL_UNIQUE_ID_BYTES 128
struct ncclComm; typedef ncclComm* ncclComm_t;
struct ncclUniqueId { char internal[NCCL_UNIQUE_ID_BYTES]; };
enum ncclResult_t { ncclSuccess = 0, ncclUnhandledCudaError = 1, ncclSystemError = 2, ncclInternalError = 3, ncclInvalidArgument = 4, ncclInvalidUsage = 5, ncclRemoteError = 6, ncclInProgress = 7 };
struct ncclConfig_t { int blocking; };
#define NCCL_CONFIG_INITIALIZER {1}
enum ncclRedOp_t { ncclSum, ncclProd, ncclMax, ncclMin, ncclAvg };
enum ncclDataType_t { ncclInt8, ncclUint8, ncclInt32, ncclInt64, ncclFloat16, ncclFloat32, ncclFloat64, ncclBfloat16 };
const char* ncclGetErrorString(ncclResult_t);
ncclResult_t ncclGetUniqueId(ncclUniqueId*);
ncclResult_t ncclCommInitRankConfig(ncclComm_t*, int, ncclUniqueId, int, ncclConfig_t*);
ncclResult_t ncclCommFinalize(ncclComm_t);
ncclResult_t ncclCommDestroy(ncclComm_t);
ncclResult_t ncclCommAbort(ncclComm_t);
ncclResult_t ncclCommGetAsyncError(ncclComm_t, ncclResult_t*);
ncclResult_t ncclGroupStart();
ncclResult_t ncclGroupEnd();
ncclResult_t ncclBroadcast(const void*, void*, size_t, ncclDataType_t, int, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllReduce(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclReduce(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, int, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllGather(const void*, void*, size_t, ncclDataType_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclReduceScatter(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclSend(const void*, size_t, ncclDataType_t, int, ncclComm_t, cudaStream_t);
ncclResult_t ncclRecv(void*, size_t, ncclDataType_t, int, ncclComm_t, cudaStream_t);

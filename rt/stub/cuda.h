// stand-in for the CUDA runtime: the parts boost/fiber/cuda/waitfor.hpp uses
#pragma once
struct CUstream_st; typedef CUstream_st * cudaStream_t;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorLaunchFailure = 719, cudaErrorUnknown = 999 };
typedef void (*cudaStreamCallback_t)(cudaStream_t, cudaError_t, void *);
extern "C" cudaError_t cudaStreamAddCallback(cudaStream_t, cudaStreamCallback_t, void *, unsigned int);

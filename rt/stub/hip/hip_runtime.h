// stand-in for the HIP runtime: the parts boost/fiber/hip/waitfor.hpp uses
#pragma once
struct ihipStream_t; typedef ihipStream_t * hipStream_t;
enum hipError_t { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorLaunchFailure = 719, hipErrorUnknown = 999 };
typedef void (*hipStreamCallback_t)(hipStream_t, hipError_t, void *);
extern "C" hipError_t hipStreamAddCallback(hipStream_t, hipStreamCallback_t, void *, unsigned int);

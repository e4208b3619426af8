#pragma once
enum cublasStatus_t { CUBLAS_STATUS_SUCCESS = 0 };
struct cublasContext; typedef cublasContext* cublasHandle_t;

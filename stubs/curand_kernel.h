#pragma once
enum curandStatus_t { CURAND_STATUS_SUCCESS = 0 };

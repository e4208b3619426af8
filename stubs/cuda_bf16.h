#pragma once
struct __nv_bfloat16 { unsigned short x; __nv_bfloat16() = default; __nv_bfloat16(float); operator float() const; };
float __bfloat162float(__nv_bfloat16); __nv_bfloat16 __float2bfloat16(float);

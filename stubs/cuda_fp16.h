#pragma once
struct __half { unsigned short x; __half() = default; __half(float); operator float() const; };
float __half2float(__half); __half __float2half(float);

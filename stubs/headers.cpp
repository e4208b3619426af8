// headers no library source includes
#if __has_include("TinyTorch.h")
#include "TinyTorch.h"
#endif
#if __has_include("Data/DataLoader.h")
#include "Data/DataLoader.h"
#endif
#if __has_include("Data/Transform.h")
#include "Data/Transform.h"
#endif
#if __has_include("Data/Sampler.h")
#include "Data/Sampler.h"
#endif
#if __has_include("Data/Dataset.h")
#include "Data/Dataset.h"
#endif
#if __has_include("Module/Basic.h") && __has_include("Module/Module.h")
void ttx_instantiate(tinytorch::nn::ModuleList& l) { l.emplaceBack<tinytorch::nn::Linear>(1, 2); }
#endif

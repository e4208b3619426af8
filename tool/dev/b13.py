from mk import *
M='Module/Module.h'; BC='Module/Basic.cpp'; BH='Module/Basic.h'
B('s42-to-parameters','C18',[(M,"""  virtual void to(DType type, Device device) {
    auto allStates = namedStates();
    for (auto &[name, state] : allStates) {
      *state = state->to(type, device);
    }
  }""","""  virtual void to(DType type, Device device) {
    for (auto *tensor : parameters()) {
      *tensor = tensor->to(type, device);
    }
  }""")],
"""  nn::RoPE rope(4, 8, 10000.f);
  nn::Linear lin(2, 2);
  lin.initParameters();
  nn::Module top;
  top.registerModules({{"rope", rope}, {"lin", lin}});
  top.to(DType::Float16, Device(DeviceType::CPU));
  for (auto &[name, t] : top.namedStates()) EXPECT(t->dtype() == DType::Float16);
""","a module with a state that is no parameter (a rope table) converted with to(dtype, device)","states that are not parameters keep their old data type")
B('s43-train-early-out','C18',[(M,"""    training_ = mode;
    for (auto &[name, module] : subModules_) {
      module.get().setTraining(mode);
    }""","""    if (training_ == mode) {
      return;
    }
    training_ = mode;
    for (auto &[name, module] : subModules_) {
      module.get().setTraining(mode);
    }""")],
"""  nn::Dropout a(1.f);
  nn::Module top;
  top.eval();
  top.registerModule("a", a);
  top.eval();
  auto y = a(Tensor::ones({4}));
  EXPECT(y.toList<float>() == std::vector<float>({1, 1, 1, 1}));
""","eval() on a module already in eval mode after a submodule was registered","a submodule registered later stays in training mode")
B('s44-list-name-digit','C18',[(M,"""  void pushBack(const std::shared_ptr<Module> &module) {
    registerModule(std::to_string(modules_.size()), *module);""","""  void pushBack(const std::shared_ptr<Module> &module) {
    registerModule(std::string(1, static_cast<char>('0' + modules_.size() % 10)), *module);""")],
"""  nn::ModuleList l;
  for (int i = 0; i < 12; i++) l.pushBack(std::make_shared<nn::Linear>(1, 1, false));
  auto ps = l.namedParameters();
  for (size_t i = 0; i < ps.size(); i++) EXPECT(ps[i].first == std::to_string(i) + ".weight");
""","a ModuleList of more than ten modules","the names of modules from the eleventh on repeat those of the first ones")
B('s45-pool-stride-square','C18',[(BH,"""stride_(stride.has_value() ? stride.value() : kernel), padding_(padding) {}""","""stride_(stride.value_or(Dim2D(kernel.h))), padding_(padding) {}""")],
"""  nn::MaxPool2D p(Dim2D(1, 2));
  auto y = p(op::reshape(Tensor(std::vector<float>{1, 2, 3, 4}), SizeVector{1, 1, 1, 4}));
  EXPECT(y.shape(3) == 2);
""","a pooling layer with a non-square kernel and no stride","the default stride is square")
B('s46-conv-bias-fan','C18',[(BC,"""    auto fanIn = Initializer::calculateFan(weight_).first;
    if (fanIn != 0) {
      const""","""    auto fanIn = weight_.shape(1) * weight_.shape(2) * weight_.shape(2);
    if (fanIn != 0) {
      const""")],
"""#include "Utils/RandomGenerator.h"
int main() {
  nn::Conv2D c(1, 400, Dim2D(1, 16));
  tinytorch::manualSeed(3);
  c.initParameters();
  auto b = c.bias().toList<float>();
  for (float x : b) EXPECT(std::fabs(x) <= 0.25f + 1e-6f);
  return bad;
}
""","a convolution with a kernel that is not square","the bias is drawn from a range computed from the kernel height alone")
R('r17-module-loops',[(M,"""    for (const auto &[name, param] : namedParameters_()) {
      ret.emplace_back(prefix + name, param);
    }
    for (const auto &[name, module] : subModules_) {
      auto subParams = module.get().namedParameters(prefix + name + ".");
      ret.insert(ret.end(), subParams.begin(), subParams.end());
    }""","""    const auto own = namedParameters_();
    ret.reserve(own.size());
    for (size_t i = 0; i < own.size(); i++) {
      ret.push_back({prefix + own[i].first, own[i].second});
    }
    for (size_t i = 0; i < subModules_.size(); i++) {
      const std::string path = prefix + subModules_[i].first + ".";
      const auto subParams = subModules_[i].second.get().namedParameters(path);
      ret.insert(ret.end(), subParams.begin(), subParams.end());
    }"""),(M,"""    training_ = mode;
    for (auto &[name, module] : subModules_) {
      module.get().setTraining(mode);
    }""","""    for (auto it = subModules_.begin(); it != subModules_.end(); ++it) {
      it->second.get().setTraining(mode);
    }
    training_ = mode;"""),(M,"""    auto allParameters = namedParameters();
    for (auto &[name, param] : allParameters) {
      param->zeroGrad();
    }""","""    for (auto *param : parameters()) {
      param->zeroGrad();
    }""")])
R('r18-module-layers',[(BC,"""  weight_ = Tensor::empty({outFeatures, inFeatures}, options);
  if (bias) {
    bias_ = Tensor::empty({outFeatures}, options);
  }
}

Tensor Linear""","""  SizeVector weightShape = {outFeatures, inFeatures};
  weight_ = Tensor::empty(weightShape, options);
  if (useBias_) {
    bias_ = Tensor::empty({weightShape[0]}, options);
  }
}

Tensor Linear"""),(BC,"""    auto fanIn = Initializer::calculateFan(weight_).first;
    const auto bound = fanIn > 0 ? 1.f / std::sqrt(static_cast<float>(fanIn)) : 0;
    Initializer::uniform(bias_, -bound, bound);""","""    float bound = 0.f;
    if (const auto [fanIn, fanOut] = Initializer::calculateFan(weight_); fanIn > 0) {
      bound = 1.f / std::sqrt(static_cast<float>(fanIn));
    }
    bias_.fillUniform_(-bound, bound);"""),(M,"""    registerModule(std::to_string(modules_.size()), *module);
    modules_.emplace_back(module);
  }""","""    const auto idx = modules_.size();
    modules_.emplace_back(module);
    registerModule(std::to_string(idx), *modules_.back());
  }"""),(M,"""    Tensor ret = {input};
    for (auto &module : modules_) {
      ret = (*module)(ret);
    }
    return ret;""","""    Tensor ret = input;
    for (size_t i = 0; i < modules_.size(); i++) {
      ret = modules_[i]->forward(ret);
    }
    return ret;"""),(BC,"""  if (useBias_) {
    return {{"weight", &weight_}, {"bias", &bias_}};
  }
  return {{"weight", &weight_}};
}

void Linear""","""  std::vector<std::pair<std::string, TensorPtr>> ret = {{"weight", &weight_}};
  if (useBias_) {
    ret.emplace_back("bias", &bias_);
  }
  return ret;
}

void Linear""")])

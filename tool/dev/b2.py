from mk import B
B('s07-adam-amsgrad-max','C08',[('Optimizer.cpp','      vh = vMax = Tensor::maximum(vMax, vh);','      vMax = Tensor::maximum(vMax, vh);')],
'''  auto run = [](bool ams) {
    Tensor w(Array1d<float>{1}, options::requiresGrad(true));
    optim::Adam o({&w}, 0.1f, {0.9f, 0.5f}, 1e-8f, 0.f, ams);
    for (int i = 0; i < 6; i++) {
      o.zeroGrad();
      w.backward(Tensor(Array1d<float>{i == 0 ? 10.f : 0.1f}));
      o.step();
    }
    return w.toList<float>()[0];
  };
  float m = 0, v = 0, vm = 0, p = 1;
  for (int i = 0; i < 6; i++) {
    float g = i == 0 ? 10.f : 0.1f;
    m = 0.9f * m + 0.1f * g;
    v = 0.5f * v + 0.5f * g * g;
    float mh = m / (1 - std::pow(0.9f, i + 1.f)), vh = v / (1 - std::pow(0.5f, i + 1.f));
    vm = std::max(vm, vh);
    p -= 0.1f * mh / (std::sqrt(vm) + 1e-8f);
  }
  EXPECT(near(run(true), p));''','Adam with AMSGrad after a gradient that shrinks','the running maximum is kept but not used')
B('s08-adagrad-decay-step','C08',[('Optimizer.cpp','static_cast<float>(step_ - 1) * lrDecay_','static_cast<float>(step_) * lrDecay_')],
'''  Tensor w(Array1d<float>{1}, options::requiresGrad(true));
  optim::Adagrad o({&w}, 0.1f, 1.f);
  w.backward(Tensor(Array1d<float>{2}));
  o.step();
  EXPECT(near(w.toList<float>()[0], 0.9f));''','Adagrad with a learning rate decay','the decay counts one step too many')
B('s09-steplr-zero','C08',[('Scheduler.cpp','lastEpoch_ == 0 ||','lastEpoch_ < 1 && stepCount_ > 1 ||')],
'''  Tensor w(Array1d<float>{1}, options::requiresGrad(true));
  optim::SGD o({&w}, 0.5f);
  optim::lr_scheduler::StepLR s(o, 2, 0.1f);
  s.step(1);
  EXPECT(near(o.getLr(), 0.5f));''','x','x') if 0 else None
B('s09-sgd-nesterov-noncumul','C08',[('Optimizer.cpp','        grad += momentum_ * buf;','        grad = momentum_ * buf + (buf - grad) * 0.f + grad * (1.f - dampening_);')],
'''  Tensor w(Array1d<float>{1}, options::requiresGrad(true));
  optim::SGD o({&w}, 0.1f, 0.5f, 0.25f, 0.f, true);
  float p = 1, b = 0;
  for (int i = 0; i < 3; i++) {
    o.zeroGrad();
    w.backward(Tensor(Array1d<float>{2}));
    o.step();
    b = i ? 0.5f * b + 0.75f * 2 : 2;
    p -= 0.1f * (2 + 0.5f * b);
  }
  EXPECT(near(w.toList<float>()[0], p));''','SGD with Nesterov momentum and dampening','the Nesterov gradient is dampened')

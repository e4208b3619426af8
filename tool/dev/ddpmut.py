import subprocess,os,sys
src=open('/repo/src/Distributed/Reducer.cpp').read(); ms=open('/repo/src/Distributed/DistributedModule.cpp').read()
M=[
('offset','bucket.paramOffsets.push_back(offset);','bucket.paramOffsets.push_back(bucket.paramOffsets.empty() ? 0 : bucket.paramOffsets.back() + size);'),
('pidx','ctx->pIdx = pIdx;','ctx->pIdx = 0;'),
('bidx','ctx->bIdx = bIdx;','ctx->bIdx = 0;'),
('noreset','    bucket.readyCount = 0;\n',''),
('noreset2','  bucketReadyCnt_ = 0;\n  for','  for'),
('noreset3','    bucket.reduceStarted = false;\n',''),
('early','if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {','if (bucket.readyCount >= static_cast<int64_t>(bucket.params.size()) - 1 && !bucket.reduceStarted) {'),
('nowait','bool success = bucket.work->wait();','bool success = true;'),
('nodiv','bucket.flatBuffer /= static_cast<float>(worldSize);',';'),
('nodiv1','bucket.flatBuffer /= static_cast<float>(worldSize);','if (bIdx == 0) bucket.flatBuffer /= static_cast<float>(worldSize);'),
('divmore','bucket.flatBuffer /= static_cast<float>(worldSize);','bucket.flatBuffer /= static_cast<float>(worldSize * bucket.params.size());'),
('cap','    if (currentBytes + paramBytes > bucketBytesCap_ &&','    if (currentBytes > bucketBytesCap_ &&'),
('cap2','      currentBytes = 0;\n    }','    }'),
('clear','      currentParams.clear();\n',''),
('last','''  if (!currentParams.empty()) {
    buckets_.push_back''','''  if (currentParams.size() > 1 || buckets_.empty()) {
    buckets_.push_back'''),
('wrongp','auto& grad = bucket.params[i]->grad();\n    ASSERT(grad.defined());\n    auto slice','auto& grad = bucket.params[bucket.params.size() - 1 - i]->grad();\n    ASSERT(grad.defined());\n    auto slice'),
('checkearly','if (bucketReadyCnt_ < static_cast<int64_t>(buckets_.size())) {','if (bucketReadyCnt_ + 1 < static_cast<int64_t>(buckets_.size())) {'),
('bwait','    if (work) {\n      work->wait();\n    }','    (void)work;'),
('root0','processGroup_->broadcast(tensors, rootRank)','processGroup_->broadcast(tensors, 0)'),
('hooks2','param->registerHook(&parameterHookFn, ctx.get());','param->registerHook(&parameterHookFn, ctx.get());\n      if (pIdx > 0) param->registerHook(&parameterHookFn, ctx.get());'),
('bcopy','    copyFlattenedBufferToParams(bIdx);\n  }\n}','  }\n}'),
]
MM=[('noprep','  reducer_->prepareForBackward();\n',''),('nobc','  reducer_->broadcastParameters(rootRank_);\n',''),('root','broadcastParameters(rootRank_)','broadcastParameters(0)')]
GOOD=[('rename','bucket.readyCount++;','bucket.readyCount += 1;'),
('inv','bucket.flatBuffer /= static_cast<float>(worldSize);','bucket.flatBuffer *= (1.0f / static_cast<float>(worldSize));'),
('loop','''  for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
    ASSERT(bucket.params[i] != nullptr);
    ASSERT(bucket.params[i]->defined());
    auto& grad = bucket.params[i]->grad();
    ASSERT(grad.defined());
    auto slice''','''  const auto count = bucket.params.size();
  for (size_t i = 0; i != count; ++i) {
    auto& param = bucket.params[i];
    ASSERT(param && param->defined());
    auto& grad = param->grad();
    ASSERT(grad.defined());
    auto slice'''),
('rev','  for (int64_t bIdx = 0; bIdx < static_cast<int64_t>(buckets_.size()); bIdx++) {\n    auto& bucket = buckets_[bIdx];\n    if (bucket.work) {','  for (auto bIdx = static_cast<int64_t>(buckets_.size()) - 1; bIdx >= 0; bIdx--) {\n    auto& bucket = buckets_[bIdx];\n    if (bucket.work) {'),
('pergrad','bucket.flatBuffer.narrow(0, offset, size).copy_(grad.flatten());','auto section = bucket.flatBuffer.narrow(0, offset, size);\n  section.copy_(grad.view({size}));'),
('eq','if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {','if (bucket.readyCount >= static_cast<int64_t>(bucket.params.size())) {'),
('init','  for (auto& p : bucket.params) {\n    int64_t size = p->numel();\n    bucket.paramSizes.push_back(size);\n    bucket.paramOffsets.push_back(offset);\n    offset += size;\n    bucket.totalSize += size;\n  }','  for (auto& p : bucket.params) {\n    bucket.paramOffsets.push_back(offset);\n    bucket.paramSizes.push_back(p->numel());\n    offset += bucket.paramSizes.back();\n  }\n  bucket.totalSize = offset;'),
('divgrad','grad.copy_(slice.view(grad.sizes()));','grad.copy_(slice.view(grad.sizes()));\n    (void)size_t(i);'),
]
W='/tmp/wt'
def run(f,t):
    open(W+'/src/Distributed/'+f,'w').write(t)
    r=subprocess.run(['python3','/verif/run.py','C24'],env=dict(os.environ,TTX_REPO=W),capture_output=True,text=True)
    o=r.stdout+r.stderr
    return r.returncode, [l for l in o.splitlines() if 'obligations=' in l or ': ' in l][:2]
for kind,L,f,base in (('BAD',M,'Reducer.cpp',src),('BAD',MM,'DistributedModule.cpp',ms),('GOOD',GOOD,'Reducer.cpp',src)):
    for nm,a,b in L:
        if sys.argv[1:] and nm not in sys.argv[1:]: continue
        assert base.count(a)==1,(nm,base.count(a))
        print(kind,nm,*run(f,base.replace(a,b)),flush=True) 
        open(W+'/src/Distributed/'+f,'w').write(base)

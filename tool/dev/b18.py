from mk import *
from b17 import FORK
S='Serializer.cpp'; MM='Utils/MMapUtils.cpp'
M="""struct Net : nn::Module { nn::Linear a; nn::Linear b; Net(int n) : a(3, n), b(n, 2) { registerModules({{"a", a}, {"b", b}}); } Tensor forward(const Tensor &x) override { return b(a(x)); } };
"""
B('s62-ckpt-align','C22',[(S,"    dataOffset += header.dataSize;","    dataOffset += (header.dataSize + 7) / 8 * 8;")],
M+"""int main() {
  Net x(3), y(3);
  for (auto &[n, t] : x.namedStates()) t->fill_(n.size() + 0.5f), t->fill_(n == "a.bias" ? 2.f : n == "b.weight" ? 3.f : n == "b.bias" ? 4.f : 5.f);
  EXPECT(save(x, "m.bin"));
  EXPECT(load(y, "m.bin"));
  auto s = x.namedStates(), t = y.namedStates();
  for (size_t i = 0; i < s.size(); i++) EXPECT(s[i].second->toList<float>() == t[i].second->toList<float>());
  return bad;
}
""","a state whose byte size is no multiple of 8 before the last state","stated data offsets differ from where the data is written")
B('s63-ckpt-lenient','C22',[(S,"""      LOGE("shape not equal for tensor: %s", name.c_str());
      success = false;""","""      LOGE("shape not equal for tensor: %s", name.c_str());
      if (strict) {
        success = false;
      }""")],
"""  nn::Linear a(3, 4), b(3, 5);
  EXPECT(save(a, "m.bin"));
  EXPECT(!load(b, "m.bin", false));
""","a non-strict load of a checkpoint with another shape","a state of another shape is skipped and success reported")
B('s64-ckpt-cow','C22',[(S,"    tensor->copyOnWrite();\n","")],
"""  nn::Linear a(3, 4), b(3, 4);
  a.weight().fill_(1.f);
  b.weight().fill_(2.f);
  EXPECT(save(a, "m.bin"));
  Tensor backup = b.weight().clone();
  EXPECT(load(b, "m.bin"));
  EXPECT(near(b.weight().toList<float>()[0], 1));
  EXPECT(near(backup.toList<float>()[0], 2));
""","a clone of a parameter taken before the load","loading writes into storage other tensors share")
B('s65-ckpt-dtype','C22',[(S,"""    auto dtype = static_cast<DType>(header->dtype);
    if (dtype != tensor->dtype()) {""","""    auto dtype = static_cast<DType>(header->dtype);
    if (dtypeSize(dtype) != dtypeSize(tensor->dtype())) {""")],
"""  nn::Linear a(3, 4), b(3, 4);
  a.to(DType::Float16);
  b.to(DType::BFloat16);
  EXPECT(save(a, "m.bin"));
  EXPECT(!load(b, "m.bin"));
""","a checkpoint of another dtype with the same element size","bytes of another dtype are loaded as they are")
B('s66-ckpt-range','C22',[(S,"    headerSize += name.length();","    headerSize += name.size() + (tensor->dim() > 2 ? 0 : 0);"),(S,"    header.nameLength = name.length();","    header.nameLength = std::char_traits<char>::length(name.c_str());")] if 0 else
[(S,"    size_t tensorSize = tensor->numel() * dtypeSize(tensor->dtype());\n\n    if (tensor->device().isCpu()) {","    size_t tensorSize = tensor->numel() * sizeof(float);\n\n    if (tensor->device().isCpu()) {")],
M+"""int main() {
  Net x(3), y(3);
  x.to(DType::Float16);
  y.to(DType::Float16);
  for (auto &[n, t] : x.namedStates()) t->fill_(n == "a.bias" ? 2.f : n == "b.weight" ? 3.f : n == "b.bias" ? 4.f : 5.f);
  EXPECT(save(x, "m.bin"));
  EXPECT(load(y, "m.bin"));
  EXPECT(y.namedStates()[2].second->to(DType::Float32).toList<float>()[0] == x.namedStates()[2].second->to(DType::Float32).toList<float>()[0]);
  EXPECT(y.namedStates()[3].second->to(DType::Float32).toList<float>()[0] == x.namedStates()[3].second->to(DType::Float32).toList<float>()[0]);
  return bad;
}
""","a module in half precision","data of an entry is written with the size of floats")
B('s67-mmap-fail','C22',[(MM,"  if (result.dataPtr == MAP_FAILED) {\n    close","  if (result.dataPtr == nullptr) {\n    close")],
FORK+"""int main() {
  EXPECT(!traps([] { nn::Linear a(3, 4); load(a, "."); }));
  return bad;
}
""","a path that opens but cannot be mapped (a directory)","a failed mapping is used")
R('r26-ckpt-helpers',[(S,"""  auto magic = MAGIC_NUMBER;
  auto version = VERSION;
  auto tensorCount = namedStates.size();

  ofs.write(reinterpret_cast<const char*>(&magic), sizeof(magic));
  ofs.write(reinterpret_cast<const char*>(&version), sizeof(version));
  ofs.write(reinterpret_cast<const char*>(&tensorCount), sizeof(tensorCount));

  size_t headerSize = sizeof(magic) + sizeof(version) + sizeof(tensorCount);
  for (const auto& [name, tensor] : namedStates) {
    headerSize += sizeof(TensorHeader);
    headerSize += name.length();
    headerSize += tensor->shape().size() * sizeof(int64_t);
  }

  size_t dataOffset = headerSize;
""","""  auto put = [&ofs](const auto& value) { ofs.write(reinterpret_cast<const char*>(&value), sizeof(value)); };
  auto bytesOf = [](const Tensor& t) -> size_t { return t.numel() * dtypeSize(t.dtype()); };

  uint64_t tensorCount = namedStates.size();
  uint64_t magic = MAGIC_NUMBER;
  uint64_t version = VERSION;
  put(magic);
  put(version);
  put(tensorCount);

  size_t dataOffset = 3 * sizeof(uint64_t);
  for (size_t i = 0; i < namedStates.size(); i++) {
    dataOffset += sizeof(TensorHeader) + namedStates[i].first.size() + tensorDimBytes(*namedStates[i].second);
  }
"""),(S,"    header.dataSize = tensor->numel() * dtypeSize(tensor->dtype());\n","    header.dataSize = bytesOf(*tensor);\n"),
(S,"    size_t tensorSize = tensor->numel() * dtypeSize(tensor->dtype());\n\n    if (tensor->device","    size_t tensorSize = bytesOf(*tensor);\n\n    if (tensor->device"),
(S,"bool Serializer::save(","static size_t tensorDimBytes(const Tensor& t) { return t.shape().size() * sizeof(int64_t); }\n\nbool Serializer::save("),
(S,"""      int64_t dimension = dim;
      ofs.write(reinterpret_cast<const char*>(&dimension), sizeof(dimension));""","""      put(static_cast<int64_t>(dim));""")])
R('r27-ckpt-load',[(S,"""  if (magic != MAGIC_NUMBER) {
    LOGE("Invalid magic number in file: %s", path.c_str());
    MMapUtils::unmapFile(mappingResult);
    return false;
  }
""","""  auto reject = [&mappingResult]() {
    MMapUtils::unmapFile(mappingResult);
    return false;
  };
  if (magic != MAGIC_NUMBER) {
    LOGE("Invalid magic number in file: %s", path.c_str());
    return reject();
  }
"""),(S,"""    // check shape
    if (shape != tensor->shape()) {
      LOGE("shape not equal for tensor: %s", name.c_str());
      success = false;
      continue;
    }

    // check dtype
    auto dtype = static_cast<DType>(header->dtype);
    if (dtype != tensor->dtype()) {
      LOGE("dtype not equal for tensor: %s", name.c_str());
      success = false;
      continue;
    }

    // check dataSize
    size_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
    if (header->dataSize != expectedSize) {
      LOGE("size not equal for tensor: %s", name.c_str());
      success = false;
      continue;
    }
""","""    const uint64_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
    const bool sameShape = tensor->shape() == shape;
    const bool sameType = tensor->dtype() == static_cast<DType>(header->dtype);
    if (!(sameShape && sameType && expectedSize == header->dataSize)) {
      LOGE("tensor does not match: %s", name.c_str());
      success = false;
      continue;
    }
"""),(S,"""    if (!fileKeys.count(name)) {
      LOGW("Missing key: %s", name.c_str());
      if (strict) {
        success = false;
      }
    }""","""    if (fileKeys.count(name)) {
      continue;
    }
    LOGW("Missing key: %s", name.c_str());
    success = success && !strict;"""),(S,"""      LOGW("Unexpected key: %s", name.c_str());
      if (strict) {
        success = false;
      }
      continue;""","""      LOGW("Unexpected key: %s", name.c_str());
      success &= !strict;
      continue;""")])

// Stand-in for TensorFlow's session options.
#ifndef VERIF_SHIM_TF_SESSION_OPTIONS_H_
#define VERIF_SHIM_TF_SESSION_OPTIONS_H_
#include "tensorflow/core/protobuf/config.pb.h"
namespace tensorflow {
struct SessionOptions {
  ConfigProto config;
};
}  // namespace tensorflow
#endif

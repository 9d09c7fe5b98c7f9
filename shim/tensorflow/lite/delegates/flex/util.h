#include "tensorflow/lite/verif_tflite.h"

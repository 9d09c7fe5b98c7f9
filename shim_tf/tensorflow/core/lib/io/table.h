#include "verif_tf.h"

#ifndef VERIF_SHIM_TF_VERSION_H_
#define VERIF_SHIM_TF_VERSION_H_
#define TF_GRAPH_DEF_VERSION 1900
#endif

#ifndef SIM_UNKNWN_H
#define SIM_UNKNWN_H
#include <objidl.h>
#endif

#ifndef SIM_OBJBASE_H
#define SIM_OBJBASE_H
#include <objidl.h>
#endif

#ifndef SIM_OLE2_H
#define SIM_OLE2_H
#include <objidl.h>
#endif

#ifndef SIM_GUIDDEF_H
#define SIM_GUIDDEF_H
#include <windows.h>
#endif

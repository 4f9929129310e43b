#ifndef SIM_WTYPES_H
#define SIM_WTYPES_H
#include <windows.h>
#endif

#ifndef SIM_WINDEF_H
#define SIM_WINDEF_H
#include <windows.h>
#endif

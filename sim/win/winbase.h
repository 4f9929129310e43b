#ifndef SIM_WINBASE_H
#define SIM_WINBASE_H
#include <windows.h>
#endif

#ifndef SIM_WINNT_H
#define SIM_WINNT_H
#include <windows.h>
#endif

#ifndef SIM_WINERROR_H
#define SIM_WINERROR_H
#include <windows.h>
#endif

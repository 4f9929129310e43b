#ifndef SIM_BASETSD_H
#define SIM_BASETSD_H
#include <windows.h>
#endif

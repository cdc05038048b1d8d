#ifndef VF_SIO_EXCEPTION_H
#define VF_SIO_EXCEPTION_H
#include "sio/definitions.h"
#endif

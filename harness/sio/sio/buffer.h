#ifndef VF_SIO_BUFFER_H
#define VF_SIO_BUFFER_H
#include "sio/definitions.h"
#endif

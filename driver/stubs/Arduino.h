/* stands in for the Arduino core when the storage adapters are compiled on the host */
#ifndef ARDUINO_STUB
#define ARDUINO_STUB
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#endif

// T03: erasing simplices, against a model that counts who uses what
#include "erase.h"

#pragma once
#include "fakevtk.h"

#include "faketgeo.h"

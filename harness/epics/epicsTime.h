#include "vpepics.h"

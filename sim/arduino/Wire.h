// A simulated Arduino core: nothing of this bus is used.
#pragma once
#include "Arduino.h"

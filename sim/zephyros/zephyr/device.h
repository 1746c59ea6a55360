// nothing of the device model is used
#pragma once

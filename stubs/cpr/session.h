#pragma once
#include "cpr/cpr.h"

#pragma once
#include "../minitbb.h"

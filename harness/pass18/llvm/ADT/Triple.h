#pragma once
#include "llvm/TargetParser/Triple.h"

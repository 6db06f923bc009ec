#pragma once
#include "case.h"
#include "conv.h"
#include "norm.h"

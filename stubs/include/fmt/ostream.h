#pragma once
#include "fmt/compile.h"

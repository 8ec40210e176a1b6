#pragma once
#include "apps.h"
void lag_plan(u64 seed, Plan &p);
bool make_plan(const std::string &prop, u64 seed, Plan &p);

#pragma once
#include "apps.h"
void run_plan(Plan &p, bool replay, const std::map<DecKey, u32> *dec, const std::string &prop);
bool drive_special(Plan &p); // profiles with a driver of their own
void wire_hooks();
void app_checks_blocked();
std::string expand_props(const std::string &);

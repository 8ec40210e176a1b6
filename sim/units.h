#pragma once
#include "game.h"
bool settle(const char *when);
void drive_conn(Plan &p);
void drive_poller(Plan &p);
void drive_sock(Plan &p);
void drive_launch(Plan &p);

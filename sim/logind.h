#pragma once
#include "sim.h"
// Model of logind behind the sd-bus / sd-login API (the seam libseat's logind backend uses).
struct LDev {
	File *held = nullptr; // logind's own description
	bool paused = false, pend = false;
	int takes = 0;
	std::string path;
};
struct LogindModel {
	bool present = true;       // the system bus can be reached
	bool has_pid_session = true, has_display = true, has_seat = true;
	bool active = true;
	bool pausing = false;
	void *controller = nullptr; // sd_bus*
	int take_control = 0, release_control = 0;
	std::map<std::pair<int, int>, LDev> dev;
	// history
	int n_switch = 0, switched_to = -1;
	int n_take = 0, n_release = 0, n_complete = 0;
	int active_read = -1; // last value of Active handed out
	int active_reads = 0;
	int n_on = 0, n_off = 0; // how often it said so
	std::string last_err;
	long live_msgs = 0;
	bool died = false; // the bus went away
	std::map<std::pair<int, int>, std::pair<int, int>> pauses; // asked, answered
};
LogindModel &logind();
void logind_reset();
void logind_set_active(bool on, int how); // how: 0 pause+ack, 1 force
void logind_gone(int which);
void logind_noise(int k);
void logind_bus_die();
void logind_finish_pause(bool timeout);
bool logind_controls(int pid);
bool logind_idle();        // all queued messages consumed
size_t logind_queued();

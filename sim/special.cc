// Profiles with a driver of their own, and hooks between models and applications.
// REPO-HEADERS
#include "units.h"
void wire_hooks() {
	orc().complete_hook = [](int maj, int min, bool pend) {
		if (!cur) return;
		Cli *c = nullptr;
		for (auto x : G->clis)
			if (x->p == cur) c = x;
		if (!c) return;
		c->completes++;
		if (!pend) violation("C24", "ack-unasked", "PauseDeviceComplete(%d, %d) although no pause of that device is pending", maj, min);
		else if (c->evs.empty() || c->evs.back() != 'D')
			violation("C24", "ack-too-early", "PauseDeviceComplete(%d, %d) before the disable callback ran", maj, min);
	};
}
bool drive_special(Plan &p) {
	if (p.profile == "conn") drive_conn(p);
	else if (p.profile == "poller") drive_poller(p);
	else if (p.profile == "sock") drive_sock(p);
	else if (p.profile == "launch") drive_launch(p);
	else return false;
	return true;
}
void app_checks_blocked() {}

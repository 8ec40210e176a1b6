SEATD = 'seatd (seatd/*.c, common/*.c): unmodified sources, run as a simulated process'
LIB = 'libseat with the seatd, embedded-server, logind and noop backends (libseat/*.c, libseat/backend/*.c, seatd/*.c, common/*.c): unmodified sources'
LAUNCH = 'seatd-launch (seatd-launch/*.c): unmodified source'
KERNEL = 'Linux system calls, sockets, poll, signals, virtual terminals, DRM/evdev/hidraw devices, file system, fork/exec/wait, clock (sim/kernel.cc, sim/shim.cc)'
RAW = 'protocol-level clients driven by the plan (sim/apps.cc)'
APP = 'applications on top of libseat driven by the plan (sim/apps.cc)'
FAKE = 'in part of the runs a scripted daemon that sends arbitrary (also invalid) replies in arbitrary fragments (sim/apps.cc)'
LOGIND = 'systemd-logind, sd-bus, sd-login (sim/logind.cc)'
RULE = ('Run i of a seed derives its own 64-bit seed; that seed generates the plan (number and kind of clients, what each does, what the '
        'environment does: VT switches, kills, stops, unplugs, link swaps, signals; fault rates; socket capacity) and every decision during the '
        'run (which process runs next, preemption points, fragmentation, short transfers, EINTR, failing calls, signal delivery). A run counts '
        'as non-trivial when the code under test passed through at least three distinct abstract states; distinct runs are counted by the hash '
        'of their complete event trace.')


def describe(prop):
    n = int(prop[1:])
    if n in (16, 17, 18, 19, 20):
        return [SEATD, LIB], [KERNEL, APP, FAKE], RULE
    if n == 23:
        return [LIB], [KERNEL, APP], RULE
    if n in (24, 25):
        return [LIB], [KERNEL, APP, LOGIND], RULE
    if n == 27:
        return [SEATD, LIB], [KERNEL, APP, LOGIND], RULE
    if n == 21:
        return [SEATD], [KERNEL, 'a supervisor that starts, signals and connects to daemons as the plan says (sim/life.cc)'], RULE
    if n == 22:
        return [LAUNCH, SEATD], [KERNEL, 'the launched command and the environment (sim/launch.cc)'], RULE
    if n == 30:
        return [SEATD, LIB], [KERNEL, RAW, APP, FAKE, LOGIND], RULE + ' Every plan runs twice: with everything logged, and with the levels and handlers of the plan.'
    if n == 15:
        return ['common/connection.c: unmodified source, both ends of a simulated socket'], [KERNEL, 'a harness that puts, flushes, reads, gets and restores as the plan says'], RULE
    if n == 26:
        return ['seatd/poller.c, common/linked_list.c: unmodified source'], [KERNEL, 'a harness that owns event sources and handlers as the plan says'], RULE
    return [SEATD, LIB], [KERNEL, RAW, APP], RULE

// Limits for one case: processor time, so that a loaded machine is not mistaken for a hang, and
// a longer time by the clock for something that waits forever. 0 lifts both.
#pragma once
#include <sys/time.h>
#include <unistd.h>
inline void watch(unsigned seconds) {
  itimerval t{}; t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm(seconds * 6);
}

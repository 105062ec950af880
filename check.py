#!/usr/bin/env python3-vt
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import signal
# whoever started us (a shell in the background, nohup) may have left signals ignored or blocked: servers started here must not inherit that
for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGCHLD, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM):
    signal.signal(s, signal.default_int_handler if s == signal.SIGINT else signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])
from lib import runner
sys.exit(runner.main(sys.argv[1:]))

"""Set by the simulator's child processes; everywhere else events go to a file."""
note = None
quiesce = None

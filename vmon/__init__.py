"""Runtime monitors for Calkulate: workload generators, reference model and
online/offline checkers.  See /verif/DESIGN.md."""

"""Runtime monitors for mccode-antlr: workload drivers, oracles and verdict discipline."""

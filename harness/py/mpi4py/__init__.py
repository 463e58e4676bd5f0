"""Stand-in for mpi4py: the communicators of the in-process world."""

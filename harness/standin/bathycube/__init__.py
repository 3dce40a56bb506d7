"""A stand-in for the estimator of the CUBE algorithm (package bathycube, not installed here): what it answers tells exactly what it was asked."""

"""Runtime monitors for hftools: workload generators, reference models, oracles."""

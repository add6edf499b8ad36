"""Static analyses for the cyclic_boosting package."""

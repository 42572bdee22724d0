"""Rules, one module per group of properties."""

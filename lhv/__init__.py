"""Contract-based deductive verification of lamberthub (see /verif/DESIGN.md)."""

"""Runtime monitors for FIAT (see /verif/DESIGN.md)."""

"""Runtime monitors for pykalman (see /verif/DESIGN.md)."""

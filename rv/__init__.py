"""Runtime-monitoring framework for pymultifracs (see /verif/DESIGN.md)."""

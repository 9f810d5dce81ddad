"""Static analysers for lwa-project/lsl (see /verif/DESIGN.md)."""

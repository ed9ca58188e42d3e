"""kmon : runtime monitors for kalepy (see /verif/DESIGN.md)."""

"""Runtime-monitoring framework for dservos/HGABAC (see DESIGN.md)."""

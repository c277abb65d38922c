"""klint: static analysis of the klang sources (no execution, no solver)."""

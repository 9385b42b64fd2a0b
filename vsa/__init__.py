"""Static value-flow analysis of the vmoe sources (pure `ast`, nothing of /repo is run)."""

"""psa: repository-specific static analysis for pypsrp (pure source analysis, nothing is imported or run)."""

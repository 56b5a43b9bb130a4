"""Property-based checks of yangson: shared machinery and one module per property."""

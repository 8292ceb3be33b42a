"""pdsa - a static analyser for Pythonic-DISORT (abstract interpretation + algebraic value numbering)."""

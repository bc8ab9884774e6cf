"""Builds the analysers (also done on demand by every check)."""
import zv
zv.engine()

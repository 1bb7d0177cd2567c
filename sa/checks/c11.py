"""Plots and animations show the solutions."""
from .outputs import many, ASSUMPTIONS, EXPLANATION, animate, plot

ID = "C11"
LEVEL = "other"


def scenarios(tier):
    return [("many", many), ("plot-scalar", plot("scalar")), ("plot-swe", plot("swe")), ("plot-swe-flat", plot("swe", True)), ("animate-scalar", animate("scalar")), ("animate-swe", animate("swe")),
            ("plot-scalar-aligned", plot("scalar", aligned=True)), ("plot-swe-aligned", plot("swe", aligned=True)),
            ("animate-scalar-aligned", animate("scalar", aligned=True)), ("animate-swe-aligned", animate("swe", aligned=True))]

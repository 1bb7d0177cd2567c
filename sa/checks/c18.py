"""Error tables and error evolutions show the errors."""
from .outputs import ASSUMPTIONS, EXPLANATION, average, data_frame, error_plot, evolution, series, table, variation

ID = "C18"
LEVEL = "other"


def scenarios(tier):
    return [("eoc", table), ("eoc-table", data_frame), ("evolution", evolution), ("error-plot", error_plot), ("average", average), ("series", series), ("variation", variation)]

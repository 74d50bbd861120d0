"""The little of numpy that data_processing.py uses."""
import math

nan = float("nan")
NaN = nan


def isnan(x):
    return math.isnan(x)

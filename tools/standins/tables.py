"""Runs data_processing.py with the stand-ins beside this file and prints the table it leaves, as JSON."""
import json
import math
import os
import runpy
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
script = sys.argv[1]
sys.argv = sys.argv[1:]


def plain(v):
    return None if v is None or (isinstance(v, float) and math.isnan(v)) else v


try:
    g = runpy.run_path(script, run_name="__main__")
    table = g["rel_results"]
    rows = [{k: plain(v[i]) for k, v in table.cols.items()} for i in range(len(table))]
    summary = {}
    for part in g["get_summary_table"](table):
        for i, n in enumerate(part.index):
            summary[n] = plain(list(part.cols.values())[0][i])
except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    # something the stand-ins lack says nothing about the script
    if isinstance(e, NotImplementedError) or (isinstance(e, (AttributeError, TypeError, ImportError)) and (
            os.path.dirname(tb[-1].filename) == HERE or "module" in str(e))):
        traceback.print_exc()
        sys.exit(77)
    raise
print("\n=====" + json.dumps([rows, summary]))

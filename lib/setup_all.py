"""Build everything once (every check rebuilds what it needs anyway)."""
import c15
import gr
from vlib import build_vh, log

FEATURES = ("fld", "heap", "mat", "cache", "red", "rips", "gr")


def main():
    for f in FEATURES:
        build_vh(f)
    c15.build_cli()
    gr.build_module()
    log("harness built")

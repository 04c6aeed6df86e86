"""Builds the IR exporter (once) so that the checks need not."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
print(ir.exporter())

#!/usr/bin/env python3
"""Builds the exporter (tools/astx.cpp against the installed libclang-cpp) and exports /repo once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import front
P = front.load()
print('exporter ready:', len(P.units), 'translation units,', len(P.functions), 'functions')

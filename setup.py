#!/usr/bin/env python3
"""Builds the IR exporter and warms the IR cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import ir
ir.irx()
import api
api.module()
api.module(drop_asserts=True)
print("ready")

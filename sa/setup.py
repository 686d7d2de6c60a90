"""builds the fact extractor from the committed sources (run once, offline)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
print('extractor:', core.build_tool())

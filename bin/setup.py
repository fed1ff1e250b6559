"""checks that the tools the checks need are there; the checks themselves build what they need"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.build('tasks', 'small'))

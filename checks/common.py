import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import json, random, re, shutil
import build, run
from monitor import Monitor, main, HarnessError

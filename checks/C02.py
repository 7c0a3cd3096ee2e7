import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C01
from C01 import *
C01.main("C02", "p", PTOPS)

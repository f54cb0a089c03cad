import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc.check import main
sys.exit(main(sys.argv[1:]))

import os, sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symex import runner
if __name__ == "__main__":
    sys.exit(runner.main())

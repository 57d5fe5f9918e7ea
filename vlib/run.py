import os, sys
from vlib.core import main
if __name__ == "__main__":
    os._exit(main(sys.argv[1:]))

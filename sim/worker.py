import sys
from sim.runner import worker_main
if __name__ == "__main__":
    sys.exit(worker_main(sys.argv[1:]))

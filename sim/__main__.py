import os
import sys

sys.path.insert(0, os.environ.get("SIM_REPO", "/repo"))
from sim.runner import main  # noqa

sys.exit(main(sys.argv[1:]))

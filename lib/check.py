import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))

from framework import REPO, main  # noqa: E402

sys.path.insert(0, str(REPO / "src"))

from checks import REGISTRY  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv, REGISTRY))

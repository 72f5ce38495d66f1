"""python3-vt run.py <property> quick|thorough
python3-vt run.py replay <file>
python3-vt run.py setup"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if os.environ.get("PYTHONHASHSEED") != "0" or \
   os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.stdout.flush()
    os.execv(sys.executable, [sys.executable] + sys.argv)

from vf import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:], HERE))

"""run.py <property id> [quick|thorough]      decide one property
run.py --replay FILE                          re-run a reported violation
run.py --selftest                             are the tools there"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from engine import driver  # noqa

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))

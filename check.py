#!/usr/bin/env python3
"""check.py <property> quick|thorough   - decide one property on /repo's working tree
   check.py <property> replay <profile>/<seed>   - run one recorded world again and print what deviates
   check.py setup   - build the tool and the precompiled recorder"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import driver
if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))

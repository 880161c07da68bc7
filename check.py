#!/usr/bin/env python3-vt
import sys, os
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'etrverif'))
sys.dont_write_bytecode = True
os.makedirs(os.path.join(H, '.build'), exist_ok=True)
import prop
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.stdout.flush()
    sys.exit(prop.main(sys.argv[1], tier))

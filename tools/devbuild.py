"""development: build once into a fixed directory; use with MX_DEV_SODIR"""
import sys, shutil, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
d = getattr(build, sys.argv[1])()
os.makedirs(sys.argv[2], exist_ok=True)
shutil.copy(os.path.join(d, 'mrobx.so'), sys.argv[2])

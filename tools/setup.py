"""nothing is built ahead: every check generates its obligations from /repo's working tree; report missing tools"""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())

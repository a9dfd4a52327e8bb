#!/usr/bin/env python3
import sys
sys.dont_write_bytecode = True
from sa import build
build.tool()
build.build_json()
print('setup done')

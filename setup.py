#!/usr/bin/env python3
"""Builds everything once, to warm the Go build cache and to fail early."""
import os, shutil, tempfile
import check
from props import PROPS
d = tempfile.mkdtemp(prefix='verif-setup-')
try:
    for driver in sorted({p['driver'] for p in PROPS.values()}):
        p = [p for p in PROPS.values() if p['driver'] == driver][0]
        s = os.path.join(d, driver)
        os.makedirs(s)
        check.build(p, s)
    print('setup done')
finally:
    shutil.rmtree(d, ignore_errors=True)

"""Scratch directories and result files."""
import contextlib
import datetime
import json
import os
import re
import shutil
import tempfile

import numpy as np


@contextlib.contextmanager
def scratch(data=True, logs=True):
    """an empty working directory of its own, with ./data (and ./logs), removed afterwards"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='vf-')
    try:
        if data:
            os.mkdir(os.path.join(d, 'data'))
        if logs:
            os.mkdir(os.path.join(d, 'logs'))
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def listing(d='data'):
    return sorted(os.listdir(d))


def contents(d='data'):
    return {f: open(os.path.join(d, f), 'rb').read() for f in listing(d)}


def parse(path):
    """-> header, table (2-d)"""
    with open(path) as f:
        first = f.readline()
        rest = f.read()
    head = json.loads(first.lstrip('# '))
    rows = [[float(x) for x in line.split()] for line in rest.splitlines() if line.strip()]
    return head, np.array(rows)


def kind(name):
    for k in ('entropy_order', 'critical_values', 'shortest_path_p', 'cross_check'):
        if k in name:
            return k
    return 'other'


def stamps(rec, name, head, since):
    """date and time in name and header of a file just written lie between `since` (see now()) and now"""
    found = re.findall(r'(?<!\d)(\d{8}_\d{6})(?!\d)', name)
    rec.check(len(found) == 1, 'the name of a file does not carry date and time', file=name)
    a = datetime.datetime.strptime(found[0], '%Y%m%d_%H%M%S')
    b = datetime.datetime.strptime(head['date'] + ' ' + head['time'], '%Y.%m.%d %H:%M:%S')
    until = now()
    for what, t in (('name', a), ('header', b)):
        if abs((until - since).total_seconds()) < 3000:     # else the clock was set, or it took too long
            rec.check(since - datetime.timedelta(seconds=2) <= t <= until + datetime.timedelta(seconds=2),
                      'date or time of a file is not that of the run', where=what, file=name, got=str(t), run=(str(since), str(until)))
    rec.count('stamps')


def now():
    return datetime.datetime.now()

"""One module per property."""
import importlib
import os


def get(pid):
    m = importlib.import_module('sim.props.' + pid.lower())
    m.ID = pid.upper()
    return m


def known_findings(pid, verif):
    """KNOWN-FINDING lines of the committed file that belong to this property."""
    path = os.path.join(verif, 'known_findings.txt')
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line)
    return out

"""Generates spec/tables.json: logarithms and exponentials in millionths, and
quantiles of the chi square distribution.

Not trusted: MCNumeric.tla checks the tables against the defining identities
and inequalities. Run with python3-vt."""
import json, math
from pathlib import Path
from scipy import stats
ln = [round(math.log(n) * 1e6) for n in range(1, 8193)]
ex = [round(math.exp(-k / 64) * 1e6) for k in range(0, 64 * 15 + 1)]
# half the point that a chi square variable with v degrees of freedom exceeds with probability q
chi = [[round(stats.chi2.isf(q / 1000, v) / 2 * 1e6) for q in (500, 750, 900, 950, 990)] for v in range(1, 13)]
p = Path(__file__).resolve().parent.parent / 'spec' / 'tables.json'
p.write_text(json.dumps(dict(ln=ln, exp=ex, chi=chi), separators=(',', ':')) + '\n')

"""writes /verif/known_findings.json; `fixed` is taken from fix: commits"""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
 ('fair rate lost', 'P25'),
 ('iterating a Curve', 'P02'), ('from_dict of log', 'P01'),
 ('log rate interpolations', 'P01'), ('log_linear_scheme could', 'P05'),
 ('domain of a DateCurve was left', 'P02'), ('casting a DateCurve', 'P05'),
 ('casting a RateCurve lost', 'P08'), ('Curve.shifted', 'P03'),
 ('arithmetic of DateCurves', 'P03'), ('setting a curve value', 'P02'),
 ('kwargs of default prob', 'P05'), ('kwargs of forward', 'P05'),
 ('forward price curve with int', 'P12'),
 ('get_swap_annuity', 'P07'), ('CashRateCurve.get_cash_rate', 'P07'),
 ('FlatIntensityCurve', 'P09'), ('discount factors depended', 'P07'),
 ('analytic gamma', 'P18'), ('numerical vega', 'P18'), ('theta missed', 'P18'), ('default day counts of bond', 'P26'),
    ('default holidays of interest', 'P26'), ('rate table moved', 'P28'), ('table of a curve with origin', 'P28'), ('rating classes of tiny', 'P27'),
    ('classes of a master scale with', 'P27'), ('curve fit left a spread', 'P25'), ('fitted values did not', 'P24'),
 ('vega of log-normal', 'P18'), ('ContingentRateCashFlowList ign', 'P16'),
 ('message on too many', 'P16'), ('annuity with zero', 'P14'),
 ('annuity with rate close', 'P14'),
 ('OptionPricingFormula.from', 'P19'), ('BinaryOptionPayOffModel ign', 'P19'),
 ('put and intrinsic', 'P19'), ('forward given as number', 'P17'),
 ('BinaryOptionPayOffModel took', 'P19'), ('options past expiry', 'P17'), ('gamma and vega of binary', 'P19'),
 ('price and vega of binary log', 'P19'), ('greeks of binary dis', 'P19'),
 ('table of contingent', 'P15'), ('calling a CashFlowLegList', 'P15'),
 ('pay offset moved', 'P15'), ('origin of zero was ignored when fixing', 'P15'),
 ('interest accrued', 'P22'), ('bracketing never', 'P21'),
 ('get_present_value failed', 'P25'), ('pricer functions left', 'P25'),
 ('default delta_grid', 'P23'), ('products on dates other', 'P26'),
 ('bond with tenor', 'P26'), ('FxContainer mixed', 'P13'),
 ('FxContainer kept', 'P13'), ('rate_table failed', 'P28'),
 ('casting a VolatilityCurve', 'P11'), ('arithmetic of rate curves', 'P03'),
 ('short and hazard rate', 'P07'),
 ('rate cashflow lists without', 'P15'), ('leg list changed', 'P15'),
 ('contingent cashflow list without', 'P16'), ('update of a date curve', 'P02'),
]
FINDINGS = json.load(open(os.path.join(V, 'tools', 'findings.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
                     capture_output=True, text=True).stdout.splitlines()
fixed = []
for line in log:
    h, msg = line.split(' ', 1)
    if not msg.startswith('fix: '):
        continue
    msg = msg[5:]
    hit = [p for k, p in MAP if msg.startswith(k)]
    assert len(hit) == 1, (msg, hit)
    fixed.append('fixed: property=%s %s %s' % (hit[0], h, msg))
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
    f.write('\n')
print(len(FINDINGS), 'findings', len(fixed), 'fixed')

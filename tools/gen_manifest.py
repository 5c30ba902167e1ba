"""Writes MANIFEST.json from the list of claimed checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(f'{HERE}/properties.jsonl')]
T = 'TLA+ specification checked with TLC; '
CLAIMED = {
    'C12': ('Interpose.tla', T + 'every transition of the state graph replayed on real recorders, random histories validated against the specification'),
    'C13': ('Interpose.tla', T + 'every transition of the state graph replayed on real deliveries, random histories validated against the specification'),
}
exec(open(f'{HERE}/tools/claimed.py').read()) if os.path.exists(f'{HERE}/tools/claimed.py') else None
NOTE = ('{0} is explored exhaustively within the constants recorded in the '
        'evidence file, and the real code is compared with it event by event. '
        'Nothing is claimed beyond those bounds and the random '
        'histories; trusts TLC, torch and the thin driver in drivers/.')
m = dict(
    version=1, setup_cmd='./setup.sh',
    checks=[dict(property=i, quick_cmd=f'./check.sh {i} quick',
                 thorough_cmd=f'./check.sh {i} thorough',
                 technique=CLAIMED[i][1], level='model_checking',
                 level_note=NOTE.format(CLAIMED[i][0]))
            for i in ids if i in CLAIMED],
    not_applicable=[dict(property=i, reason='no check built yet')
                    for i in ids if i not in CLAIMED])
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')

import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, '/repo')


def load(pid):
    m = glob.glob(os.path.join(VERIF, 'checks', pid.lower() + '_*.py'))
    assert len(m) == 1, (pid, m)
    import seismostats
    assert seismostats.__file__.startswith('/repo/'), seismostats.__file__
    return importlib.import_module(
        'checks.' + os.path.basename(m[0])[:-3])


def main():
    from mc import core
    if sys.argv[1] == 'replay':
        data = json.load(open(sys.argv[2]))
        sys.exit(core.replay(load(data['property']), data))
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        check = load(pid)
    except Exception as e:
        # the tree under test cannot be loaded the way a user loads it
        import traceback
        traceback.print_exc()
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', pid + '-import.json')
        json.dump(dict(property=pid, key='import', message=repr(e)),
                  open(path, 'w'))
        print(f'VIOLATION property={pid} replay={path}')
        sys.exit(1)
    sys.stdout.flush()
    rc = core.main(check, tier, seed)
    sys.stdout.flush()
    sys.exit(rc)


main()

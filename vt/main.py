import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--evidence-dir')
    ap.add_argument('--replay-dir')
    args = ap.parse_args()

    from vt import engine

    import props.all  # noqa: F401

    prop = engine.REGISTRY[args.property]
    if args.replay:
        with open(args.replay) as f:
            saved = json.load(f)
        import signal

        signal.signal(signal.SIGVTALRM, engine._on_alarm)
        case, why = engine.run_tape(prop, saved['tape'], verbose=True, cpu=engine.CPU_CONFIRM)
        for line in case.trace:
            print('    ' + line)
        if why is None:
            print('the property holds on this replay')
            return 0
        print('property %s fails: %s' % (prop.pid, why))
        print('VIOLATION property=%s replay=%s' % (prop.pid, os.path.abspath(args.replay)))
        return 1

    code, evidence = engine.run_check(prop, args.tier, args.seed, args.scale, args.replay_dir)
    edir = args.evidence_dir or os.path.join(engine.VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    path = os.path.join(edir, prop.pid + '.json')
    with open(path, 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    cov = evidence['coverage']
    print(
        '%s %s: %d cases, %d distinct non-trivial, %.1f s, exit %d'
        % (prop.pid, evidence['tier'], cov['evaluations'], cov['distinct_nontrivial'], evidence['wall_s'], code)
    )
    return code


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)

import json
import sys


def main(argv):
    if argv[0] == 'replay':
        d = json.load(open(argv[1]))
        from . import runner
        r = runner.ReplayServer(d['property'], d['tier']).run(
            [dict(case=d['case'], env=d['inputs'])])[0]
        print('property', d['property'], 'case', d['case'])
        for k, v in d['inputs'].items():
            print('  ', k, '=', v)
        print('failed:', json.dumps(r['failed'], indent=1))
        if r.get('detail'):
            print(r['detail'])
        return 1 if r['failed'] else 0
    from . import runner
    return runner.main(argv[0], argv[1] if len(argv) > 1 else 'quick')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

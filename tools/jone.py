"""judge the specs touched by one function of a scratch tree"""
import sys
sys.path.insert(0, '/verif')
from absint import run, judge
judge.REFDIR = '/verif/ref'


def main():
    root, q = sys.argv[1:3]
    run.META = judge.meta()
    run.FN = judge.judge
    run.init(root)
    first = [i for i in run.SPECS if i.split('@')[0] == q]
    mod = q.split('.')[0]
    rest = [i for i in run.SPECS if i not in first and
            i.split('.')[0] == mod]
    soft = 0
    bad = ''
    for grp in (first, rest):
        for s in grp:
            _, r, dt = run.work((s, 60))
            if r[0] != 'ok':
                bad = '%s %s' % (s, r)
                continue
            d = r[1]
            if d['hard']:
                print('HARD', s, d['hard'][0][0][:60], d['hard'][0][1][:200])
                return
            if d['soft']:
                soft += 1
                bad = '%s %s' % (s, d['soft'][0][0][:80])
        if soft:
            break
        if grp is first and mod in ('mlambda', 'pppssr', 'sbas', 'rtcm') and \
                len(rest) > 60:
            pass
    print('SOFT' if soft else 'MISS', bad)


main()

#!/usr/bin/env python3
"""selftest.py PROPERTY... [-n PLACES]
Does the specification notice when a recorded execution is wrong?  Takes the traces of a property's
parts from the unchanged library, spoils one observed value in each of many traces, and counts for
every kind of call and field how often the trace is rejected.  Prints what went unnoticed."""
import copy, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vk
from props import P, PLAIN

INPUT = {'e', 'o', 'a', 'x', 'f', 'ov', 'ord', 'ty', 'src', 'fam', 'kd', 'n0', 'st', 'w', 'k', 'cap', 'i'}
isnum = lambda v: isinstance(v, list) and len(v) == 2 and all(isinstance(t, int) for t in v)


def places(ev):
    """Observed values of an event: (field, path, kind)."""
    def walk(v, path, field):
        if isnum(v) and field not in ('ix', 'q'):
            yield field, path, 'num'
        elif isinstance(v, list):
            for k, t in enumerate(v):
                yield from walk(t, path + [k], field)
        elif isinstance(v, dict):
            for k, t in v.items():
                if k not in INPUT:
                    yield from walk(t, path + [k], field + '.' + k)
        elif isinstance(v, str):
            yield field, path, 'str'
        elif isinstance(v, int):
            yield field, path, 'int'
    for k, v in ev.items():
        if k not in INPUT and not (k == 'n' and ev['e'] == 'N'):
            yield from walk(v, [k], k)


def spoil(ev, path, kind, rnd, rel):
    v = ev
    for k in path[:-1]:
        v = v[k]
    k = path[-1]
    if kind == 'num':
        d = vk.tonum(v[k])
        if d != d or abs(d) == float('inf') or (d != 0 and abs(d) < 1e-4):
            return False
        v[k] = vk.bits(d * (1 + rel * rnd.choice((1, -1))) if d else rnd.choice((rel, -rel)))
        return True
    if kind == 'int':
        v[k] += rnd.choice((1, -1))
    else:
        v[k] = 'inv' if v[k] == 'ok' else 'ok'
    return True


sane = {('S', 'r'), ('F', 'r'), ('I', 'ix.r'), ('B', 'r'), ('LG', 'ix.r'), ('LA', 'r'), ('LD', 'r'), ('LT', 'r'), ('h', 'r'), ('T', 'r'), ('H', 'r'), ('f', 'r'), ('Z', 'r'), ('z', 'r')}


def main():
    pids = [a for a in sys.argv[1:] if a.startswith('C')] or sorted(P)
    per = int(sys.argv[sys.argv.index('-n') + 1]) if '-n' in sys.argv else 40
    rel = float(sys.argv[sys.argv.index('-rel') + 1]) if '-rel' in sys.argv else 1e-5
    rnd = random.Random(1)
    work = os.path.join(vk.VERIF, '.work', 'selftest.%d' % os.getpid())
    os.makedirs(work)
    build = vk.Build(work, **PLAIN)
    union = {}      # every label some property checks on the traces of a profile
    for pid in pids:
        for t in P[pid]['traces']:
            if not (t.get('pair') or t.get('threads') or t['build'] != PLAIN or 'only' in t):
                union.setdefault(t['profile'], set()).update(t['focus'])
    for profile, focus in union.items():
            pid, t = '', {'profile': profile, 'focus': sorted(focus)}
            traces = vk.generate(work, t['profile'], 1, 1)
            log, _ = vk.drive(build.need(vk.kinds_of(traces)), work, 'x', traces)
            if '-all' in sys.argv:      # every label which is quiet on these traces
                labels = set(re.findall(r'Flag\("([a-z0-9]+)"', open(os.path.join(vk.VERIF, 'spec', 'TraceIir.tla')).read()))
                t['focus'] = sorted(labels - {x for b in vk.validate(work, 'x', log, sorted(labels))[0] for x in b[2]})
            where = {}
            for k, (name, evs) in enumerate(log):
                for l, ev in enumerate(evs):
                    for field, path, kind in places(ev):
                        where.setdefault((ev['e'], field), []).append((k, l, path, kind))
            cases = []
            for key, all_ in where.items():
                done = 0
                for k, l, path, kind in rnd.sample(all_, min(len(all_), 4 * per)):
                    if done == (per if key[1].split('.')[-1] not in ('ns', 'r', 'n', 'mx') or key in sane else 2):
                        break
                    evs = log[k][1][:l + 60]
                    evs = [copy.deepcopy(e) if m == l else e for m, e in enumerate(evs)]
                    if spoil(evs[l], path, kind, rnd, rel):
                        cases.append((key, (log[k][0], evs), k, l, path))
                        done += 1
            hit = {}
            # what makes a trace meaningless altogether would hide the others
            odd = [c for c in cases if c[0][1].split('.')[-1] in ('ns', 'r', 'n', 'mx') and c[0] not in sane]
            rest = [c for c in cases if c not in odd]
            for part in [rest[lo:lo + 800] for lo in range(0, len(rest), 800)] + [[c] for c in odd]:
                bad, _, _ = vk.validate(work, 'x', [c[1] for c in part], t['focus'])
                found = {b[0] for b in bad}
                for m, c in enumerate(part):
                    h = hit.setdefault(c[0], [0, 0, []])
                    h[1] += 1
                    if m in found:
                        h[0] += 1
                    elif len(h[2]) < 3:
                        h[2].append('%s call %d %s' % (c[1][0], c[3] + 1, c[4]))
            print(pid, t['profile'], ' '.join('%s.%s:%d/%d' % (k[0], k[1], h[0], h[1]) for k, h in sorted(hit.items())))
            for k, h in sorted(hit.items()):
                if h[0] < h[1] and '-v' in sys.argv:
                    print('   missed %s.%s %s' % (k[0], k[1], '; '.join(h[2])))
            sys.stdout.flush()
    shutil.rmtree(work)


main()

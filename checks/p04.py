import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
ck = vlib.Check('P04', rule='history = (word width 1-32, stream pattern, drawing routine, sequence of request lengths with resets); every returned value and the number of '
                'words drawn is compared online with a bit queue; distinct = distinct (process seed) batches of histories, each with its own event counts')
PROCS, HIST = (64, 900) if not vlib.THOROUGH else (1500, 3000)
mons = [('plain', vlib.build('plain').harness('bitmon', ['bitmon.c'])), ('asan', vlib.build('asan').harness('bitmon', ['bitmon.c']))]
jobs = []
for i in range(PROCS):
    fl, exe = mons[0] if i % 4 else mons[1]
    jobs.append((fl, exe, ck.rng.getrandbits(40), HIST if fl == 'plain' else HIST // 3))


def work(j):
    return vlib.run([j[1], 'seed=%d' % j[2], 'hist=%d' % j[3]], timeout=200)


for j, r in zip(jobs, vlib.pmap(work, jobs)):
    rep = {'harness': 'bitmon', 'flavour': j[0], 'seed': j[2], 'hist': j[3]}
    if r.timeout:
        ck.violation('hang', 'bit drawing history does not end', rep)
        continue
    if r.rc != 0:
        ck.violation('crash', 'bit drawing died (%s): %s' % (r.rc, r.err[-600:]), rep)
        continue
    o = json.loads(r.out.strip().splitlines()[-1])
    if not o['ok']:
        ck.violation(o['kind'], o['kind'] + ': ' + o['detail'], rep)
        continue
    ck.evals += o['events']
    for k in ('histories', 'resets', 'uint', 'bits', 'fast', 'pure'):
        ck.count('events_' + k, o[k])
    ck.extra['distinct_widths'] = max(o['widths'], ck.extra.get('distinct_widths', 0))
    ck.extra['distinct_request_lengths'] = max(o['lengths'], ck.extra.get('distinct_request_lengths', 0))
    ck.seen(dict(rep, **o))
ck.finish(100000, 20)

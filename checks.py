"""Which configurations decide which property. h harness, e entry, p parameters, t tier (q: both tiers, t: thorough only)."""
import os, json
HERE = os.path.dirname(os.path.abspath(__file__))
ASSUMPTIONS = ["x86-64 clang -O1 code generation of the library is the code analysed; sequentially consistent memory (the library only uses locked instructions and plain volatile accesses on x86-TSO)"]
ASSUME = {}
NOTE = {}
def known_findings():
    p = HERE + '/known-findings.json'
    return [k for k in json.load(open(p))['findings'] if k.get('status') == 'known'] if os.path.exists(p) else []
NM = ['--no-merge']
def C(n, h, e=None, t='q', **k):
    d = dict(n=n, h=h, e=e or h, t=t); d.update(k); d['x'] = ([] if d.pop('merge', False) else NM) + d.get('x', []); return d
CHECKS = {}
CHECKS['P01'] = [
 C('two-blocking', 'mutex_mc', p=dict(ops=0), reach=['acquired', 'finished']),
 C('two-all-calls', 'mutex_mc', p=dict(ops=3), reach=['acquired', 'refused', 'finished']),
 C('two-all-calls-high', 'mutex_mc', p=dict(ops=3, robust=2), reach=['acquired', 'refused', 'finished']),
 C('two-all-calls-low-threads', 'mutex_mc', p=dict(ops=3, robust=1, oneproc=1), reach=['acquired', 'refused', 'finished']),
 C('two-names-rounds', 'mutex_mc', p=dict(ops=2, names=2, rounds=2), time=200, reach=['acquired', 'refused', 'finished']),
 C('three-blocking', 'mutex_mc', p=dict(ops=0, threads=3), time=200, reach=['acquired', 'finished']),
 C('three-all-calls', 'mutex_mc', t='t', p=dict(ops=3, threads=3), time=800, reach=['acquired', 'refused', 'finished']),
 C('three-all-calls-high', 'mutex_mc', t='t', p=dict(ops=2, threads=3, robust=2), time=800, reach=['acquired', 'refused', 'finished']),
 C('two-three-rounds', 'mutex_mc', t='t', p=dict(ops=3, rounds=3), time=800, reach=['acquired', 'refused', 'finished']),
]

CHECKS['P02'] = [
 C('histories-3', 'mutex_seq', p=dict(steps=3), reach=['recursive', 'not owner', 'busy', 'expired', 'freed']),
 C('histories-4-robust', 'mutex_seq', p=dict(steps=4, robust=2, names=1), reach=['recursive', 'not owner']),
 C('histories-3-low', 'mutex_seq', p=dict(steps=3, robust=1), reach=['recursive']),
 C('histories-4', 'mutex_seq', 'mutex_seq', t='t', merge=True, p=dict(steps=4), time=600),
 C('histories-5', 'mutex_seq', 'mutex_seq', t='t', merge=True, p=dict(steps=5, names=2), time=600),
 C('histories-6', 'mutex_seq', 'mutex_seq', t='t', merge=True, p=dict(steps=6, names=1), time=600),
]
CHECKS['P03'] = [
 C('mutex-short', 'names', 'names_mutex', p=dict(chars=2)),
 C('mutex-limit', 'names', 'names_mutex', p=dict(chars=2, pre=62)),
 C('cond-short', 'names', 'names_cond', p=dict(chars=2)),
 C('cond-limit', 'names', 'names_cond', p=dict(chars=2, pre=62)),
 C('mutex-collide', 'names_collide', 'names_mutex', p=dict(chars=2), flavor='noinline'),
 C('cond-collide', 'names_collide', 'names_cond', p=dict(chars=2), flavor='noinline'),
 C('missing-names', 'mutex_seq', 'mutex_null', reach=['done']),
 C('missing-names-robust', 'mutex_seq', 'mutex_null', p=dict(robust=1), reach=['done']),
 C('mutex-3-chars', 'names', 'names_mutex', t='t', p=dict(chars=3), time=600),
 C('cond-3-chars', 'names', 'names_cond', t='t', p=dict(chars=3), time=600),
 C('mutex-collide-3', 'names_collide', 'names_mutex', t='t', merge=True, p=dict(chars=3), flavor='noinline', time=600),
]
CHECKS['P05'] = [
 C('any-two-ranges', 'file_seq', 'file_two', p=dict(disjoint=0), reach=['granted', 'refused', 'released']),
 C('histories-3', 'file_seq', p=dict(steps=3), reach=['granted', 'refused', 'released', 'not held']),
 C('histories-2-all-calls', 'file_seq', p=dict(steps=2, ops=8), reach=['queried']),
 C('histories-2-files', 'file_seq', p=dict(steps=2, fds=2, files=2, symfile=1, ops=8), reach=['queried']),
 C('histories-2-fds', 'file_seq', p=dict(steps=2, fds=2, files=1)),
 C('histories-3-threads', 'file_seq', p=dict(steps=3, procs=1)),
 C('histories-3-robust', 'file_seq', p=dict(steps=3, robust=2, free=3)),
 C('histories-3-all-calls', 'file_seq', t='t', p=dict(steps=3, ops=8), time=700),
 C('histories-3-files', 'file_seq', t='t', p=dict(steps=3, fds=2, files=2, symfile=1), time=700),
 C('histories-3-fds', 'file_seq', t='t', p=dict(steps=3, fds=2), time=700),
 C('histories-4', 'file_seq', t='t', p=dict(steps=4), time=800),
 C('histories-5-one-range', 'file_seq', t='t', p=dict(steps=5, ranges=1), time=800),
 C('histories-4-no-free', 'file_seq', t='t', p=dict(steps=4, ranges=1, free=0), time=700),
]

CHECKS['P04'] = [
 C('two-blocking', 'file_mc', p=dict(ops=2), reach=['acquired', 'finished']),
 C('two-all-calls', 'file_mc', p=dict(ops=6), time=300, reach=['acquired', 'refused', 'finished']),
 C('two-blocking-robust', 'file_mc', p=dict(ops=2, robust=2), reach=['acquired', 'finished']),
 C('two-blocking-threads', 'file_mc', p=dict(ops=2, oneproc=1), reach=['acquired', 'finished']),
 C('two-blocking-free-always', 'file_mc', p=dict(ops=2, free=3), reach=['acquired', 'finished']),
 C('two-blocking-no-free', 'file_mc', p=dict(ops=2, free=0), reach=['acquired', 'finished']),
 C('two-ranges', 'file_mc', p=dict(ops=2, ranges=2), reach=['acquired', 'finished']),
 C('two-rounds', 'file_mc', p=dict(ops=2, rounds=2), reach=['acquired', 'finished']),
 C('two-readers', 'file_mc', p=dict(readers=1), reach=['acquired', 'finished']),
 C('two-readers-robust', 'file_mc', p=dict(readers=1, robust=2, oneproc=1), reach=['acquired', 'finished']),
 C('two-readers-no-free', 'file_mc', p=dict(readers=1, free=0), reach=['acquired', 'finished']),
 C('two-ranges-all-calls', 'file_mc', t='t', p=dict(ops=6, ranges=2), time=800),
 C('two-all-calls-robust', 'file_mc', t='t', p=dict(ops=6, robust=2, oneproc=1), time=800),
 C('two-rounds-all-calls', 'file_mc', t='t', p=dict(ops=4, rounds=2), time=800),
]
CHECKS['P06'] = [
 C('refused-next-to-unlock', 'file_mc', 'file_refused', p=dict(), reach=['acquired', 'refused', 'finished']),
 C('refused-next-to-unlock-no-free', 'file_mc', 'file_refused', p=dict(free=0), reach=['refused', 'finished']),
 C('refused-next-to-unlock-robust', 'file_mc', 'file_refused', p=dict(free=2, robust=2), reach=['refused', 'finished']),
 C('two-refused', 'file_mc', 'file_refused', p=dict(release=0), time=300, reach=['refused', 'finished']),
 C('histories', 'file_seq', 'file_seq', p=dict(steps=3, first=2)),
 C('mutex-histories', 'mutex_seq', p=dict(steps=3), reach=['busy', 'expired']),
 C('three-refused', 'file_mc', 'file_refused', t='t', p=dict(threads=3), time=800),
]
CHECKS['P09'] = [
 C('waiter-recovers', 'mutex_crash', p=dict(mode=0), reach=['crashed', 'recovered', 'finished']),
 C('waiter-recovers-recursive', 'mutex_crash', p=dict(mode=0, recursive=1, ops=3), reach=['crashed', 'recovered', 'finished']),
 C('waiter-recovers-threads', 'mutex_crash', p=dict(mode=0, oneproc=1, ops=3), reach=['crashed', 'recovered', 'finished']),
 C('waiter-recovers-new-name', 'mutex_crash', p=dict(mode=0, known=0), reach=['crashed', 'recovered', 'finished']),
 C('sweep-after', 'mutex_crash', p=dict(mode=1, robust=1, recursive=1, ops=3), reach=['crashed', 'finished']),
 C('sweep-beside', 'mutex_crash', p=dict(mode=2, robust=1, recursive=1, ops=3), reach=['crashed', 'finished']),
 C('sweep-beside-high', 'mutex_crash', p=dict(mode=2, robust=2), reach=['crashed', 'finished']),
 C('three-callers', 'mutex_crash', p=dict(mode=0, threads=3, quiet=1), time=300, reach=['crashed', 'recovered', 'finished']),
 C('three-callers-all-calls', 'mutex_crash', t='t', p=dict(mode=0, threads=3, quiet=1, ops=3), time=800),
 C('three-callers-sweep', 'mutex_crash', t='t', p=dict(mode=2, threads=3, robust=1, ops=3), time=800),
]
CHECKS['P10'] = [
 C('waiter-recovers', 'file_crash', p=dict(), time=300, reach=['crashed', 'recovered', 'finished']),
 C('reader-kept', 'file_crash', p=dict(held=1, ops=1), reach=['crashed', 'recovered', 'finished']),
 C('sweep-after', 'file_crash', p=dict(mode=1, ops=6), reach=['crashed', 'finished']),
 C('sweep-after-low', 'file_crash', p=dict(mode=1, ops=6, robust=1, free=0), reach=['crashed', 'finished']),
 C('sweep-beside', 'file_crash', p=dict(mode=2, robust=1, ops=6), reach=['crashed', 'finished']),
 C('sweep-beside-reader', 'file_crash', p=dict(mode=2, held=1, ops=1), reach=['crashed', 'finished']),
 C('in-window', 'file_crash', p=dict(window=1), time=300, known=True),
 C('stale-waiter', 'file_stale', p=dict(mode=0), reach=['recovered', 'kept', 'shared']),
 C('stale-sweep', 'file_stale', p=dict(mode=1), reach=['recovered', 'kept']),
 C('stale-sweep-same-process', 'file_stale', p=dict(mode=1, same=1), reach=['recovered', 'kept']),
 C('stale-sweep-low-no-free', 'file_stale', p=dict(mode=1, robust=1, free=0), reach=['recovered', 'kept']),
 C('stale-waiter-free-always', 'file_stale', p=dict(mode=0, same=1, free=3), reach=['recovered', 'kept', 'shared']),
 C('waiter-recovers-all-calls', 'file_crash', t='t', p=dict(ops=6), time=850),
 C('waiter-recovers-no-free', 'file_crash', t='t', p=dict(ops=2, free=0), time=800),
]
CHECKS['P11'] = [
 C('mutex-new-name', 'mutex_crash', p=dict(mode=0, known=0, ops=3), reach=['crashed', 'recovered', 'finished']),
 C('mutex-new-name-threads', 'mutex_crash', p=dict(mode=0, known=0, oneproc=1), reach=['crashed', 'recovered', 'finished']),
 C('range', 'file_crash', p=dict(), time=300, reach=['crashed', 'recovered', 'finished']),
 C('range-sweep', 'file_crash', p=dict(mode=2, robust=1, ops=6, free=3), reach=['crashed', 'finished']),
 C('range-no-free', 'file_crash', p=dict(mode=1, ops=6, free=0), reach=['crashed', 'finished']),
 C('stale', 'file_stale', p=dict(mode=1), reach=['recovered', 'kept']),
]

CHECKS['P11'] += [
 C('wait-and-signal', 'cond_crash', p=dict(), reach=['crashed', 'finished', 'survived']),
 C('wait-and-signal-threads', 'cond_crash', p=dict(oneproc=1), reach=['crashed', 'finished']),
 C('wait-and-signal-sweep', 'cond_crash', p=dict(mode=1, robust=1), reach=['crashed', 'finished']),
 C('first-wait', 'cond_crash', p=dict(known=0), time=200, reach=['crashed', 'finished']),
]
CHECKS['P09'] += [
 C('owner-dies-in-wait', 'cond_crash', p=dict(), reach=['crashed', 'finished', 'survived']),
 C('owner-dies-in-wait-live-owner', 'cond_crash', p=dict(threads=3, vop=2, sop=0), time=300, reach=['crashed', 'finished']),
 C('owner-dies-in-wait-sweep', 'cond_crash', p=dict(threads=3, vop=2, sop=0, mode=1, robust=1), time=300, reach=['crashed', 'finished']),
]
CR = ['finished', 'woken', 'expired', 'no need to wait']
CHECKS['P08'] = [
 C('one-waiter', 'cond_mc', p=dict(), reach=['finished', 'woken']),
 C('one-timed-waiter', 'cond_mc', p=dict(timed=1), reach=['finished', 'woken', 'expired']),
 C('one-waiter-early-signal', 'cond_mc', p=dict(raw=1, signals=2), reach=['finished']),
 C('two-waiters', 'cond_mc', p=dict(waiters=2), time=300, reach=['finished', 'woken']),
 C('two-waiters-broadcast', 'cond_mc', p=dict(waiters=2, broadcast=1), time=300, reach=['finished', 'woken']),
 C('two-waiters-two-conds', 'cond_mc', p=dict(waiters=2, conds=2), time=300, reach=['finished', 'woken']),
 C('two-waiters-new-names', 'cond_mc', p=dict(waiters=2, known=0), time=300, reach=['finished', 'woken']),
 C('two-waiters-raw', 'cond_mc', p=dict(raw=1, waiters=2), time=300, reach=['finished']),
 C('timed-new-names-robust', 'cond_mc', p=dict(robust=2, timed=1, known=0), reach=['finished', 'woken', 'expired']),
 C('waiter-beside-sweep', 'cond_mc', p=dict(robust=1, sweep=1), reach=['finished', 'woken']),
 C('two-timed-waiters', 'cond_mc', t='t', p=dict(timed=1, waiters=2), time=800, reach=['finished', 'woken', 'expired']),
 C('two-timed-waiters-broadcast', 'cond_mc', t='t', p=dict(timed=1, waiters=2, broadcast=1), time=800),
 C('two-waiters-beside-sweep', 'cond_mc', t='t', p=dict(robust=1, sweep=1, waiters=2), time=800),
]
XR = ['done', 'exhausted', 'granted']
CHECKS['P12'] = [
 C('ranges-%s' % m, 'exhaust', 'exhaust_file', p=dict(free=i, nlocker=4, nfile=1, steps=3, symoff=0), reach=XR) for i, m in enumerate(['no-free', 'free-fd', 'free-offset', 'free-always'])
] + [
 C('any-ranges', 'exhaust', 'exhaust_file', p=dict(free=1, nlocker=4, nfile=1, steps=2), reach=XR),
 C('any-ranges-no-free', 'exhaust', 'exhaust_file', p=dict(free=0, nlocker=4, nfile=1, steps=2), reach=XR),
 C('files-free-fd', 'exhaust', 'exhaust_file', p=dict(free=1, nlocker=6, nfile=2, steps=2, symoff=0), reach=XR),
 C('files-free-offset', 'exhaust', 'exhaust_file', p=dict(free=2, nlocker=6, nfile=2, steps=2, symoff=0, robust=2), reach=XR),
 C('files-no-free', 'exhaust', 'exhaust_file', p=dict(free=0, nlocker=6, nfile=2, steps=3, symoff=0), time=200, reach=XR),
 C('names', 'exhaust', 'exhaust_named', reach=['done', 'exhausted']),
 C('names-robust', 'exhaust', 'exhaust_named', p=dict(robust=2), reach=['done', 'exhausted']),
 C('histories', 'file_seq', 'file_seq', p=dict(steps=3, first=2)),
 C('files-free-always-3', 'exhaust', 'exhaust_file', t='t', p=dict(free=3, nlocker=6, nfile=2, steps=3, symoff=0), time=800),
 C('files-free-fd-3-robust', 'exhaust', 'exhaust_file', t='t', p=dict(free=1, nlocker=6, nfile=2, steps=3, symoff=0, robust=2), time=800),
 C('files-free-always-4', 'exhaust', 'exhaust_file', t='t', p=dict(free=3, nlocker=6, nfile=2, steps=4, symoff=0), time=1500),
 C('ranges-free-fd-5', 'exhaust', 'exhaust_file', t='t', p=dict(free=1, nlocker=4, nfile=1, steps=5, symoff=0), time=1500),
 C('ranges-no-free-5', 'exhaust', 'exhaust_file', t='t', p=dict(free=0, nlocker=4, nfile=1, steps=5, symoff=0), time=1500),
]
CHECKS['P07'] = [
 C('arithmetic', 'time', 'time_arith', reach=['over', 'not over']),
 C('arithmetic-64', 'time', 'time_arith', p=dict(bits=62), reach=['over', 'not over']),
 C('expires-mutex', 'time', 'time_expires', p=dict(what=0), reach=['expired']),
 C('expires-read', 'time', 'time_expires', p=dict(what=1), reach=['expired']),
 C('expires-write', 'time', 'time_expires', p=dict(what=2), reach=['expired']),
 C('expires-wait', 'time', 'time_expires', p=dict(what=3), reach=['expired']),
 C('durations-read', 'time', 'time_expires', p=dict(what=1, pick=1, readings=2), reach=['expired']),
 C('durations-write', 'time', 'time_expires', p=dict(what=2, pick=1, readings=2), reach=['expired']),
 C('durations-mutex', 'time', 'time_expires', p=dict(what=0, pick=1, readings=2), reach=['expired']),
 C('durations-wait', 'time', 'time_expires', p=dict(what=3, pick=1, readings=2), reach=['expired']),
 C('at-once', 'time', 'time_free', p=dict(what=9), reach=['granted']),
 C('at-once-robust', 'time', 'time_free', p=dict(what=9, robust=2), reach=['granted']),
 C('clock-fails', 'time', 'time_fails', p=dict(what=9), reach=['clock failed']),
 C('expires-mutex-robust', 'time', 'time_expires', t='t', p=dict(what=0, robust=2, readings=4), time=800),
 C('expires-write-robust', 'time', 'time_expires', t='t', p=dict(what=2, robust=2, readings=4), time=800),
 C('expires-wait-4', 'time', 'time_expires', t='t', p=dict(what=3, robust=2, readings=4), time=800),
 C('expires-mutex-long', 'time', 'time_expires', t='t', p=dict(what=0, secbits=31), time=800),
]
CHECKS['P20'] = [
 C('missing', 'util', 'util_nopath', reach=['done']),
 C('path', 'util', 'util_path', p=dict(chars=6), reach=['normalised', 'root', 'above root']),
 C('path-relative', 'util', 'util_path', p=dict(chars=6, relative=1), reach=['normalised', 'root', 'above root']),
 C('number-3', 'util', 'util_number', p=dict(chars=3), reach=['parsed', 'rejected']),
 C('number-max', 'util', 'util_number', p=dict(chars=2, pre=1), reach=['parsed', 'rejected']),
 C('number-min', 'util', 'util_number', p=dict(chars=2, pre=2), reach=['parsed', 'rejected']),
 C('number-hex', 'util', 'util_number', p=dict(chars=2, pre=3), reach=['parsed', 'rejected']),
 C('number-octal', 'util', 'util_number', p=dict(chars=2, pre=4), reach=['parsed', 'rejected']),
 C('transfer', 'util', 'util_io', p=dict(max=4, shorts=2), reach=['written', 'read', 'filled']),
 C('fill-blocks', 'util', 'util_fill', reach=['filled']),
 C('stream', 'util', 'util_read', reach=['read', 'nothing']),
 C('path-9', 'util', 'util_path', t='t', p=dict(chars=9), time=600),
 C('path-relative-8', 'util', 'util_path', t='t', p=dict(chars=8, relative=1), time=600),
 C('number-4', 'util', 'util_number', t='t', p=dict(chars=4), time=800),
 C('transfer-8', 'util', 'util_io', t='t', p=dict(max=7, shorts=3), time=800),
]

SR = ['started', 'used', 'finished']
SO = ['--sysonly']
CHECKS['P15'] = [
 C('two-starting', 'startup', p=dict(), x=SO, reach=SR),
 C('two-file-left-over', 'startup', p=dict(exists=1), x=SO, reach=SR),
 C('two-any-content-left-over', 'startup', p=dict(exists=2), x=SO, reach=SR),
 C('two-starting-twice', 'startup', p=dict(rounds=2, retries=1), x=SO, time=120, reach=SR),
 C('two-starting-low', 'startup', p=dict(robust=1), x=SO, reach=SR),
 C('two-starting-one-dies', 'startup', p=dict(crash=1), x=SO, time=120, reach=SR + ['died']),
 C('two-file-left-over-one-dies', 'startup', p=dict(crash=1, exists=1), x=SO, time=150, reach=SR + ['died']),
 C('two-starting-one-dies-high', 'startup', p=dict(crash=1, robust=2), x=SO, time=150, reach=SR + ['died']),
 C('three-starting', 'startup', t='t', p=dict(procs=3, retries=1), x=SO, time=600, reach=SR),
 C('two-starting-twice-one-dies', 'startup', t='t', p=dict(crash=1, rounds=2, retries=1), x=SO, time=1200, reach=SR),
]

ST = [w for s in ('FlShm::MakeListFileLock=st_file', 'FlShm::MakeListOffLock=st_off', 'FlShm::MakeListLocker=st_locker', 'FlShm::MakeListNMtxLock=st_mtx', 'FlShm::MakeListNCondLock=st_cond', 'FlShm::MakeListWaiter=st_waiter', 'flck_fill_zero=st_fill', 'RawMap=st_map') for w in ('--stub', s)]
CHECKS['P13'] = [
 C('arithmetic', 'layout', 'layout_arith', x=ST, flavor='noinline', nowit=True),
 C('build', 'layout', 'layout_build', reach=['built']),
 C('build-300', 'layout', 'layout_build', p=dict(big=300), reach=['built']),
 C('two-addresses-5', 'layout', 'layout_two', p=dict(steps=5), x=SO, reach=['busy', 'unlocked', 'range busy', 'range unlocked', 'finished']),
 C('two-addresses-5-low-no-free', 'layout', 'layout_two', p=dict(steps=5, robust=1, free=0, names=2), x=SO, reach=['busy', 'unlocked', 'range busy', 'range unlocked', 'finished']),
 C('two-addresses-6-free-always', 'layout', 'layout_two', p=dict(steps=6, free=3, names=1), x=SO, reach=['finished']),
 C('two-addresses-5-high-free-offset', 'layout', 'layout_two', p=dict(steps=5, robust=2, free=2, names=2), x=SO, reach=['finished']),
 C('build-370', 'layout', 'layout_build', t='t', p=dict(big=360), reach=['built']),
 C('two-addresses-6', 'layout', 'layout_two', t='t', p=dict(steps=6), x=SO, time=900, reach=['finished']),
 C('two-addresses-7', 'layout', 'layout_two', t='t', p=dict(steps=7), x=SO, time=1500, reach=['finished']),
 C('two-addresses-8-free-always', 'layout', 'layout_two', t='t', p=dict(steps=8, free=3, names=1), x=SO, time=900, reach=['finished']),
]

PL = dict(flavor='plain')
CHECKS['P14'] = [
 C('counts', 'config', 'cfg_numbers', p=dict(chars=3), reach=['legal', 'illegal'], **PL),
 C('counts-5-digits', 'config', 'cfg_numbers', p=dict(chars=5, digits=1), reach=['legal', 'illegal'], **PL),
 C('counts-10-digits', 'config', 'cfg_numbers', p=dict(pre=1), reach=['legal', 'illegal'], **PL),
 C('counts-20-digits', 'config', 'cfg_numbers', p=dict(pre=2, chars=3), reach=['illegal'], **PL),
 C('autoinit', 'config', 'cfg_modes', p=dict(what=0), reach=['known', 'unknown'], **PL),
 C('nomap-mode', 'config', 'cfg_modes', p=dict(what=1), reach=['known', 'unknown'], **PL),
 C('robust-mode', 'config', 'cfg_modes', p=dict(what=2), reach=['known', 'unknown'], **PL),
 C('free-unit-mode', 'config', 'cfg_modes', p=dict(what=3), reach=['known', 'unknown'], **PL),
 C('umask', 'config', 'cfg_umask', reach=['masked', 'none'], **PL),
 C('place', 'config', 'cfg_place', reach=['named', 'bad name', 'placed'], **PL),
 C('setters', 'config', 'cfg_setters', reach=['loops set', 'loops refused', 'set'], **PL),
 C('setters-used', 'config', 'cfg_setters', p=dict(used=1), reach=['loops set', 'loops refused', 'set'], **PL),
 C('reinit', 'config', 'cfg_reinit', p=dict(again=1), reach=['accepted', 'refused', 'again'], **PL),
 C('reinit-environment', 'config', 'cfg_reinit', p=dict(env=1, again=1), reach=['accepted', 'refused', 'again'], **PL),
 C('rebuild', 'config', 'cfg_rebuild', reach=['rebuilt', 'bad place'], **PL),
 C('before-first-use', 'config', 'cfg_before', known=True, **PL),
 C('counts-4', 'config', 'cfg_numbers', t='t', p=dict(chars=4), reach=['legal', 'illegal'], **PL),
 C('counts-any-5', 'config', 'cfg_numbers', t='t', p=dict(chars=5), time=900, reach=['legal', 'illegal'], **PL),
 C('setters-4', 'config', 'cfg_setters', t='t', p=dict(steps=4), time=600, reach=['set'], **PL),
 C('umask-5', 'config', 'cfg_umask', t='t', p=dict(chars=5), time=600, reach=['masked', 'none'], **PL),
]

CA = dict(capi=1)
CHECKS['P02'].append(C('histories-2-c', 'mutex_seq', p=dict(steps=2, **CA), reach=['recursive', 'busy', 'expired']))
CHECKS['P03'].append(C('missing-names-c', 'mutex_seq', 'mutex_null', p=dict(robust=1, **CA), reach=['done']))
CHECKS['P01'].append(C('two-all-calls-c', 'mutex_mc', p=dict(ops=3, **CA), reach=['acquired', 'refused', 'finished']))
CHECKS['P04'].append(C('two-all-calls-c', 'file_mc', p=dict(ops=6, **CA), time=300, reach=['acquired', 'refused', 'finished']))
CHECKS['P05'] += [C('histories-2-all-calls-c', 'file_seq', p=dict(steps=2, ops=8, **CA), reach=['queried']), C('any-two-ranges-c', 'file_seq', 'file_two', p=dict(disjoint=0, **CA), reach=['granted', 'refused', 'released'])]
CHECKS['P06'].append(C('mutex-histories-c', 'mutex_seq', p=dict(steps=2, **CA), reach=['busy', 'expired']))
CHECKS['P07'] += [C('durations-%s-c' % n, 'time', 'time_expires', p=dict(what=i, pick=1, readings=2, **CA), reach=['expired']) for i, n in enumerate(['mutex', 'read', 'write', 'wait'])]
CHECKS['P08'] += [C('one-waiter-c', 'cond_mc', p=dict(**CA), reach=['finished', 'woken']), C('one-timed-waiter-broadcast-c', 'cond_mc', p=dict(timed=1, broadcast=1, **CA), reach=['finished', 'woken', 'expired'])]
CHECKS['P14'] += [C('setters-c', 'config', 'cfg_setters', p=dict(steps=2, **CA), reach=['loops set', 'loops set through C', 'set'], **PL), C('reinit-c', 'config', 'cfg_reinit', p=dict(**CA), reach=['accepted', 'refused'], **PL), C('rebuild-c', 'config', 'cfg_rebuild', p=dict(**CA), reach=['rebuilt', 'bad place'], **PL)]

CHECKS['P18'] = [
 C('histories-3', 'rcsv', 'rcsv', reach=['shared read', 'shared write', 'destroyed', 'no target', 'done']),
 C('histories-3-constructed', 'rcsv', 'rcsv', p=dict(made=1), reach=['shared read', 'shared write', 'done']),
 C('histories-3-three-objects', 'rcsv', 'rcsv', p=dict(objects=3), time=300, reach=['shared read', 'shared write', 'done']),
 C('histories-2-robust', 'rcsv', 'rcsv', p=dict(steps=2, objects=3, robust=2, free=0), reach=['done']),
 C('failing-calls', 'rcsv', 'rcsv_fail', reach=['failed', 'used after a failure', 'done']),
 C('gone-descriptors', 'rcsv', 'rcsv_gone', reach=['done']),
 C('two-threads-read-then-write', 'rcsv', 'rcsv_mc', p=dict(plan=1), reach=['read', 'write', 'finished']),
 C('two-threads-write-then-read', 'rcsv', 'rcsv_mc', p=dict(plan=2), reach=['read', 'write', 'finished']),
 C('two-threads-two-objects', 'rcsv', 'rcsv_mc', p=dict(plan=1, two=1), reach=['read', 'write', 'finished']),
 C('two-threads-any', 'rcsv', 'rcsv_mc', time=400, reach=['read', 'write', 'finished']),
 C('overlap-in-part', 'rcsv', 'rcsv_overlap', known=True, reach=['apart', 'overlap']),
 C('histories-4', 'rcsv', 'rcsv', t='t', p=dict(steps=4), time=1200, reach=['shared read', 'shared write', 'done']),
 C('histories-4-three-objects', 'rcsv', 'rcsv', t='t', p=dict(steps=4, objects=3), time=2500, reach=['done']),
 C('failing-calls-3', 'rcsv', 'rcsv_fail', t='t', p=dict(steps=3, faults=6), time=1500, reach=['failed', 'done']),
 C('two-threads-system-calls', 'rcsv', 'rcsv_mc', t='t', p=dict(plan=1, sched=1), time=900, reach=['finished']),
]

WK = dict(flavor='noinline', nowit=True)
def WX(spin=1): return ['--stub', 'FlShm::CheckProcessDead=st_sweep', '--spin', str(spin)]
CHECKS['P21'] = [
 C('events', 'worker', 'worker_events', reach=['closed', 'other'], **WK),
 C('events-interrupted', 'worker', 'worker_events', p=dict(records=2, names=2, shorts=2), reach=['closed', 'other'], **WK),
 C('polls-5', 'worker', 'worker_script', p=dict(polls=5), x=WX(400), reach=['close', 'interrupted', 'ended'], **WK),
 C('many-timeouts', 'worker', 'worker_script', p=dict(polls=2, timeouts=260), x=WX(600), reach=['close', 'ended'], **WK),
 C('requests-3', 'worker', 'worker_mc', p=dict(requests=3, events=2), x=WX(2), unwind=12, reach=['event', 'stopped', 'ended', 'destroyed'], **WK),
 C('requests-5', 'worker', 'worker_mc', p=dict(requests=5, events=3), x=WX(3), unwind=16, time=300, reach=['event', 'stopped', 'ended', 'destroyed'], **WK),
 C('failing-start', 'worker', 'worker_fail', p=dict(requests=0), x=WX(2), unwind=12, reach=['failed', 'no thread', 'worked'], **WK),
 C('events-4-records', 'worker', 'worker_events', t='t', p=dict(records=4, names=3), time=900, reach=['closed', 'other'], **WK),
 C('polls-7', 'worker', 'worker_script', t='t', p=dict(polls=7), x=WX(400), time=900, reach=['close', 'ended'], **WK),
 C('requests-7', 'worker', 'worker_mc', t='t', p=dict(requests=7, events=4), x=WX(4), unwind=24, time=1500, reach=['event', 'stopped', 'ended'], **WK),
]
CHECKS['P04'].append(C('two-blocking-threads-one-fd', 'file_mc', p=dict(ops=2, oneproc=1, samefd=1), reach=['acquired', 'finished']))

CHECKS['P17'] = [
 C('every-call', 'nomap', 'nomap', time=300, reach=['attached', 'not attached', 'attached in spite of a failure', 'attached by a call', 'allowed', 'denied', 'no name', 'no descriptor', 'normal', 'done']),
 C('every-call-c', 'nomap', 'nomap', p=dict(later=1, capi=1), reach=['attached', 'not attached', 'attached by a call', 'allowed', 'denied', 'no name', 'normal', 'done']),
 C('two-threads-attach', 'nomap', 'nomap_mc', p=dict(fault=5), reach=['locked', 'finished']),
 C('two-threads-attach-allow', 'nomap', 'nomap_mc', p=dict(fault=2, deny=0), reach=['locked', 'finished']),
 C('two-threads-first-attach', 'nomap', 'nomap_mc', p=dict(noauto=1), reach=['locked', 'finished']),
 C('two-threads-attach-mixed', 'nomap', 'nomap_mc', p=dict(fault=5, ops=3), reach=['locked', 'range', 'finished']),
 C('two-threads-attach-query', 'nomap', 'nomap_mc', p=dict(fault=5, ops=2), reach=['finished']),
 C('two-calls', 'nomap', 'nomap', t='t', p=dict(steps=2, later=1), time=900, reach=['done']),
 C('two-threads-attach-range', 'nomap', 'nomap_mc', t='t', p=dict(fault=5, ops=1), time=900, reach=['range', 'finished']),
 C('two-calls-failing', 'nomap', 'nomap', t='t', p=dict(steps=2), time=2500, reach=['done']),
]
FK = ['busy', 'died', 'left', 'locked', 'newcomer', 'not owner', 'range busy', 'range locked', 'range not held', 'swept', 'unlocked', 'finished']
CHECKS['P16'] = [
 C('histories-2', 'fork', 'forks', p=dict(steps=2), x=SO, reach=FK),
 C('histories-3', 'fork', 'forks', p=dict(steps=3, prefix=1), x=SO, time=200, reach=FK),
 C('histories-2-low-initialised-twice', 'fork', 'forks', p=dict(steps=2, robust=1, again=1, worker=0), x=SO, reach=FK),
 C('histories-2-not-robust', 'fork', 'forks', p=dict(steps=2, robust=0), x=SO, reach=FK),
 C('parent-dies-first', 'fork', 'forks', p=dict(steps=3, late=1), x=SO, reach=FK),
 C('child-of-child', 'fork', 'forks', p=dict(steps=2, prefix=1, gens=2), x=SO, time=200, reach=FK),
 C('histories-4', 'fork', 'forks', t='t', p=dict(steps=4, prefix=2), x=SO, time=1500, reach=FK),
 C('child-of-child-3', 'fork', 'forks', t='t', p=dict(steps=3, prefix=2, gens=2), x=SO, time=2500, reach=FK),
]
PB = ['alive', 'not alive', 'not inspected', 'not open', 'open']
CHECKS['P19'] = [
 C('one-question', 'probe', 'probe', p=dict(questions=1), reach=PB),
 C('two-questions', 'probe', 'probe', p=dict(questions=2), time=250, reach=PB),
 C('three-questions', 'probe', 'probe', p=dict(questions=3, few=1), time=250, reach=PB),
 C('sweep', 'probe', 'probe_sweep', reach=['released', 'kept']),
 C('sweep-high', 'probe', 'probe_sweep', p=dict(robust=2), reach=['released', 'kept']),
 C('sweep-one-process', 'probe', 'probe_sweep', p=dict(same=1), reach=['released', 'kept']),
 C('sweep-one-process-high', 'probe', 'probe_sweep', p=dict(same=1, robust=2), reach=['released', 'kept']),
 C('four-questions', 'probe', 'probe', t='t', p=dict(questions=4, few=1, both=0), time=2500, reach=PB),
]

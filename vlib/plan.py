"""What every check runs: scenario families, their parameters, and the specification tags that concern the property."""
READ = {'get_phantom', 'get_missing', 'get_wrong', 'getv_phantom', 'getv_missing', 'getv_wrong'}
ITER = {'iter', 'iter_end', 'content'}
VAR = {'var_deleted', 'var_stale', 'var_wrong', 'iter_var', 'content_var', 'it_var', 'rec_var'}
REC = {'rec_next', 'rec_min', 'rec_retention', 'rec_dropped', 'rec_content'}
DISC = {p + x for p in ('', 'idx_', 'var_') for x in ('disc_range', 'disc_dirty', 'disc_cyclic', 'disc_erase_range', 'disc_erase_align')}
KEEP = {'retention', 'min_back', 'live_destroyed'}
PAGE = {'next_page', 'page_id', 'page_content', 'flush_failed', 'flush_not_written'}
PUT = {'put_accepted', 'put_refused'}
OPEN = {'open_refused', 'open_accepted', 'reset_content'}
ITS = {'it_order', 'it_phantom', 'it_missing'}
FAULT = {'fault_lost', 'fault_damage', 'fault_wrong', 'fault_flush_ok', 'fault_next', 'fault_var', 'fault_iter'}
DIED = {'died'}
STAT = {'stat_reads', 'stat_writes'}
HELD = {'open_files', 'open_memory', 'close_files', 'close_memory'}
ALL = READ | ITER | VAR | REC | DISC | KEEP | PAGE | PUT | OPEN | ITS | FAULT | DIED

# design models (spec/EmbedDBDesign.tla), checked exhaustively and replayed: quick and thorough sets
def _m(**k): return dict(k)
D_PLAIN = dict(models=[_m(N=4, E=1, depth=24, crashes=2, keep=6), _m(N=4, E=2, er=0, R=3, depth=22, crashes=2, keep=6), _m(N=6, E=2, R=1, depth=20, crashes=3, keep=6), _m(N=8, E=4, R=1, depth=22, crashes=2, er=0, keep=6)],
               deep=[_m(N=4, E=1, depth=40, crashes=3), _m(N=4, E=2, er=0, R=3, depth=44, crashes=3), _m(N=6, E=2, R=1, depth=36, crashes=4), _m(N=8, E=4, R=1, depth=40, crashes=3, er=0), _m(N=6, E=3, R=2, depth=40, crashes=3), _m(N=10, E=2, R=1, depth=36, crashes=3, er=0)])
D_RLC = dict(models=[_m(N=4, E=1, rlc=1, depth=16, crashes=2, keep=6), _m(N=8, E=2, rlc=1, depth=19, crashes=2, keep=10), _m(N=10, E=2, rlc=1, er=0, R=3, depth=18, crashes=2, keep=10), _m(N=16, E=4, rlc=1, R=1, depth=18, crashes=2, keep=6)],
             deep=[_m(N=4, E=1, rlc=1, depth=34, crashes=3), _m(N=8, E=2, rlc=1, depth=40, crashes=3), _m(N=10, E=2, rlc=1, er=0, R=3, depth=40, crashes=3), _m(N=16, E=4, rlc=1, R=2, depth=46, crashes=2), _m(N=12, E=3, rlc=1, R=2, depth=40, crashes=3), _m(N=6, E=1, rlc=1, R=2, er=0, depth=34, crashes=3)])
D_VAR = dict(models=[_m(N=4, E=1, NV=3, depth=10, crashes=1, L1=30, L2=30, keep=10), _m(N=4, E=1, NV=2, rlc=1, er=0, depth=10, crashes=1, L1=24, L2=24, keep=10), _m(N=8, E=2, NV=4, K0=0, depth=10, crashes=1, L1=12, L2=12, keep=10), _m(N=8, E=2, NV=6, rlc=1, depth=7, crashes=1, L1=5, L2=50, mix=1, keep=10)],
             deep=[_m(N=4, E=1, NV=3, depth=15, crashes=2, L1=30, L2=30, keep=100), _m(N=4, E=1, NV=2, rlc=1, er=0, depth=14, crashes=2, L1=24, L2=24, keep=100), _m(N=8, E=2, NV=4, K0=0, depth=15, crashes=2, L1=12, L2=12, keep=100), _m(N=8, E=2, NV=6, rlc=1, depth=10, crashes=1, L1=5, L2=50, mix=1, keep=100), _m(N=4, E=1, NV=4, depth=10, crashes=1, L1=3, L2=40, mix=1, K0=0, er=0, keep=100)])
D_LAPS = dict(models=[_m(N=4, E=1, depth=34, crashes=0, keep=1), _m(N=4, E=2, R=1, depth=34, crashes=1, keep=3), _m(N=8, E=2, rlc=1, R=2, depth=34, crashes=0, keep=1), _m(N=4, E=1, rlc=1, depth=24, crashes=1, keep=3)],
              deep=[_m(N=4, E=1, depth=60, crashes=1, keep=2), _m(N=4, E=2, R=1, depth=60, crashes=2), _m(N=8, E=2, rlc=1, R=2, depth=60, crashes=1), _m(N=6, E=3, R=2, depth=60, crashes=1), _m(N=12, E=3, rlc=1, R=2, depth=60, crashes=1), _m(N=4, E=1, rlc=1, depth=50, crashes=2)])
D_CYCLES = dict(models=[_m(N=4, E=1, depth=18, crashes=5, keep=10), _m(N=4, E=2, er=0, R=1, depth=18, crashes=5, keep=10), _m(N=8, E=2, rlc=1, depth=16, crashes=4, keep=10), _m(N=4, E=1, rlc=1, depth=14, crashes=4, keep=10)],
                deep=[_m(N=4, E=1, depth=28, crashes=8), _m(N=4, E=2, er=0, R=1, depth=28, crashes=8), _m(N=8, E=2, rlc=1, depth=24, crashes=6), _m(N=4, E=1, rlc=1, depth=22, crashes=6), _m(N=6, E=3, R=1, depth=26, crashes=7)])
D_LOSS = dict(models=[_m(N=4, E=1, depth=18, crashes=2, keep=6, loss=1), _m(N=4, E=2, er=0, R=3, depth=18, crashes=2, keep=6, loss=1), _m(N=4, E=1, rlc=1, depth=16, crashes=2, keep=6, loss=1), _m(N=8, E=2, rlc=1, depth=18, crashes=2, keep=10, loss=1),
                      _m(N=4, E=1, NV=3, depth=10, crashes=1, L1=30, L2=30, keep=10, loss=2), _m(N=4, E=1, NV=2, rlc=1, er=0, depth=10, crashes=1, L1=24, L2=24, keep=10, loss=2)],
              deep=[_m(N=4, E=1, depth=26, crashes=3, loss=1), _m(N=4, E=2, er=0, R=3, depth=26, crashes=2, loss=1), _m(N=6, E=2, R=1, depth=26, crashes=3, loss=1), _m(N=8, E=2, rlc=1, depth=28, crashes=2, loss=1), _m(N=10, E=2, rlc=1, er=0, R=3, depth=26, crashes=2, loss=1), _m(N=4, E=1, rlc=1, depth=26, crashes=3, loss=1),
                    _m(N=4, E=1, NV=3, depth=13, crashes=2, L1=30, L2=30, keep=100, loss=2), _m(N=4, E=1, NV=2, rlc=1, er=0, depth=13, crashes=2, L1=24, L2=24, keep=100, loss=2), _m(N=8, E=2, NV=4, K0=0, depth=13, crashes=1, L1=12, L2=12, keep=100, loss=2)])

# run = (executable, family, number of traces in the quick tier, parameters)
PLAN = {
 'C01': dict(level='exploration', tags=READ | {'content', 'died', 'live_destroyed'}, big=[('pages', 10), ('ids', 10), ('points', 10), ('bigpage', 12), ('medium', 16)], runs=[
    ('drv', 'aged', 40, dict()),
    ('drv', 'core', 420, dict(n=80, reads=0.8)), ('drv', 'core', 120, dict(n=60, reads=0.8, vdata=True)), ('drv', 'core', 100, dict(n=500, reads=0.05, big=True, vdata=False)),
    ('drv', 'core', 120, dict(n=120, reads=0.7, E=1, vdata=False)), ('drv', 'lookups', 160, dict()), ('drv', 'large', 32, dict()), ('drv-asan', 'core', 60, dict(n=60, reads=0.8))]),
 'C02': dict(level='exploration', tags=PUT | {'content', 'next_page', 'page_content', 'died'} | READ | REC, big=[('medium', 24), ('bigpage', 16), ('bigblock', 10), ('pages', 6)], runs=[
    ('drv', 'aged', 30, dict()),
    ('drv', 'core', 500, dict(n=70, reads=0.2, dups=0.6, reopens=0.06)), ('drv', 'order', 260, dict()), ('drv', 'large', 32, dict()), ('drv', 'crash', 80, dict(dups=0.5))]),
 'C03': dict(level='exploration', tags=ITER | {'died'}, big=[('medium', 24), ('index', 10), ('bigpage', 16), ('pages', 6)], runs=[
    ('drv', 'aged', 30, dict()),
    ('drv', 'iterate', 420, dict()), ('drv', 'core', 200, dict(n=70, reads=0.6)), ('drv', 'filt', 160, dict(index=False)), ('drv', 'iterate', 40, dict(big=True)), ('drv', 'large', 24, dict()), ('drv-asan', 'iterate', 50, dict())]),
 'C04': dict(level='exploration', tags=ITER | {'died'}, big=[('index', 40), ('medium', 12)], runs=[
    ('drv', 'aged', 40, dict(index=True)),
    ('drv', 'filt', 500, dict()), ('drv', 'filt', 100, dict(n=200)), ('drv', 'filt', 100, dict(rlc=False, vdata=False, E=1)), ('drv', 'power', 50, dict(index=True)), ('drv-asan', 'filt', 40, dict())]),
 'C05': dict(level='exploration', tags=KEEP | PAGE | READ | ITER | {'rec_retention', 'died', 'disc_cyclic', 'disc_range'}, big=[('pages', 16), ('ids', 16), ('bigblock', 20), ('medium', 16)], runs=[
    ('drv', 'aged', 80, dict()),
    ('drv', 'design', 60, D_LAPS),
    ('drv', 'wrap', 420, dict()), ('drv', 'wrap', 120, dict(rlc=True)), ('drv', 'core', 200, dict(n=120, reads=0.3)), ('drv', 'crash', 40, dict())]),
 'C06': dict(level='fault_enumeration', tags=ALL - DISC - FAULT - VAR | {'live_destroyed', 'disc_erase_range'}, big=[('bigblock', 20), ('medium', 24), ('pages', 8)], runs=[
    ('drv', 'aged', 50, dict(rlc=False)),
    ('drv', 'design', 80, D_PLAIN),
    ('drv', 'crash', 200, dict(rlc=False)), ('drv', 'boundary', 200, dict(rlc=False, vdata=False)), ('drv', 'boundary', 50, dict(rlc=False, vdata=True)), ('drv', 'core', 160, dict(rlc=False, reopens=0.12))]),
 'C07': dict(level='fault_enumeration', tags=ALL - FAULT, big=[('bigblock', 24), ('medium', 24), ('bigpage', 10)], runs=[
    ('drv', 'aged', 50, dict(rlc=True)),
    ('drv', 'design', 80, D_RLC),
    ('drv', 'crash', 130, dict(rlc=True)), ('drv', 'boundary', 130, dict(rlc=True)), ('drv', 'core', 200, dict(rlc=True, reopens=0.1)), ('drv', 'wrap', 100, dict(rlc=True))]),
 'C08': dict(level='exploration', tags=VAR | READ | {'content', 'iter', 'died'}, big=[('longvar', 40), ('manyvar', 4)], runs=[
    ('drv', 'vardata', 420, dict(roomy=True)), ('drv', 'core', 160, dict(vdata=True, reads=0.7)), ('drv', 'vardata', 60, dict(roomy=True, big=True)), ('drv-asan', 'vardata', 60, dict())]),
 'C09': dict(level='exploration', tags=VAR | READ | {'content', 'iter', 'died'} | {x for x in DISC if x.startswith('var_')}, big=[('longvar', 20), ('manyvar', 10), ('medium', 20)], runs=[
    ('drv', 'vardata', 420, dict(roomy=False)), ('drv', 'core', 240, dict(vdata=True, reads=0.7)), ('drv', 'iters', 100, dict(vdata=True)), ('drv-asan', 'vardata', 40, dict(roomy=False))]),
 'C10': dict(level='fault_enumeration', tags=VAR | READ | REC | {'content', 'died', 'live_destroyed'} | {x for x in DISC if x.startswith('var_')}, big=[('longvar', 16), ('manyvar', 8), ('medium', 20)], runs=[
    ('drv', 'aged', 50, dict(vdata=True)),
    ('drv', 'design', 70, D_VAR),
    ('drv', 'crash', 150, dict(vdata=True)), ('drv', 'power', 60, dict(vdata=True)), ('drv', 'boundary', 120, dict(vdata=True)), ('drv', 'core', 200, dict(vdata=True, reopens=0.12)), ('drv', 'vardata', 160, dict(reopens=0.1))]),
 'C11': dict(level='exploration', tags=DISC | {'live_destroyed', 'died', 'page_id'}, big=[('bigblock', 24), ('ids', 12), ('index', 10), ('manyvar', 4)], runs=[
    ('drv', 'aged', 40, dict()),
    ('drv', 'design', 60, D_RLC),
    ('drv', 'wrap', 300, dict()), ('drv', 'core', 200, dict(reopens=0.08)), ('drv', 'crash', 90, dict()), ('drv', 'boundary', 60, dict()), ('drv', 'vardata', 100, dict()), ('drv', 'fault', 60, dict()), ('drv', 'filt', 100, dict(n=150))]),
 'C13': dict(level='exploration', tags=ALL - FAULT, runs=[
    ('drv', 'multi', 600, dict()), ('drv', 'multi', 100, dict(n=160)), ('drv', 'iters', 200, dict())]),
 'C16': dict(level='exploration', tags=ALL - FAULT, big=[('bigblock', 12), ('bigpage', 24), ('medium', 12)], runs=[
    ('drv', 'configs', 2000, dict()), ('drv', 'reconf', 400, dict()), ('drv-asan', 'configs', 300, dict()), ('drv-asan', 'reconf', 60, dict())]),
 'C17': dict(level='fault_enumeration', tags=ALL - DISC, runs=[
    ('drv', 'fault', 260, dict(vdata=False)), ('drv', 'fault', 140, dict(vdata=True)), ('drv', 'fault', 100, dict(index=True)), ('drv', 'fault', 80, dict(rlc=True))]),
 'C20': dict(level='exploration', tags=ITS | {'it_var', 'died', 'content'}, runs=[
    ('drv', 'iters', 700, dict()), ('drv', 'iters', 120, dict(n=150)), ('drv', 'multi', 150, dict())]),
 'C21': dict(level='fault_enumeration', tags=ALL - DISC - FAULT, big=[('medium', 30), ('bigblock', 10)], runs=[
    ('drv', 'aged', 40, dict()),
    ('drv', 'design', 80, D_CYCLES),
    ('drv', 'crash', 200, dict(deep=1.0, nx=8)), ('drv', 'cycles', 260, dict()), ('drv', 'core', 120, dict(reopens=0.15)), ('drv', 'reconf', 100, dict())]),
 'C23': dict(level='exploration', tags=HELD | DIED, big=[('medium', 20), ('bigpage', 10), ('index', 8)], runs=[
    ('drv', 'configs', 900, dict()), ('drv', 'reconf', 200, dict()), ('drv', 'core', 160, dict(reopens=0.2)), ('drv', 'multi', 120, dict()), ('drv', 'iters', 100, dict(index=True)), ('drv', 'cycles', 60, dict()), ('drv', 'filt', 120, dict()), ('drv', 'fault', 60, dict()),
    ('drv-asan', 'configs', 300, dict()), ('drv-asan', 'core', 60, dict(reopens=0.2, vdata=True))]),
 'C25': dict(level='fault_enumeration', tags=ALL - DISC - FAULT, runs=[
    ('drv', 'design', 60, D_LOSS),
    ('drv', 'power', 160, dict(rlc=False, vdata=False)), ('drv', 'power', 130, dict(rlc=True)), ('drv', 'power', 130, dict(vdata=True)), ('drv', 'power', 130, dict(index=True)), ('drv', 'power', 30, dict(masks=(7,), rlc=True, vdata=True)),
    ('drv', 'core', 120, dict(reopens=0.15)), ('drv', 'cycles', 80, dict())]),
 'C24': dict(level='exploration', tags=STAT | DIED, runs=[('drv', 'stats', 1100, dict()), ('drv-asan', 'stats', 80, dict())]),
}

_T = 'TLA+ specification; TLC judges every event recorded from the real code (trace validation)'
_X = ' Assumes the storage model of driver/driver.c (page writes and erases are atomic and ordered) and trusts TLC; bounded by the generated scripts (small geometries, thousands of histories per run).'
NOTES = {
 'C01': (_T, 'exploration', 'Every lookup in randomly generated histories over random configurations is judged; also stores of up to 140 000 pages and stores whose page ids lie around 2^16, 2^24, 2^31 and near 2^32.' + _X),
 'C02': (_T, 'exploration', 'Every insert attempt, including after flush, eviction, reopen and crash, is judged, and the content is listed afterwards.' + _X),
 'C03': (_T, 'exploration', 'Every iteration with every combination of bounds is judged against the content the specification predicts.' + _X),
 'C04': (_T, 'exploration', 'Filtered iterations over indexed stores are judged against the content, which does not know the index.' + _X),
 'C05': (_T, 'exploration', 'Retention, the oldest page and all reads are judged after every operation over several laps.' + _X),
 'C06': (_T + ', crash at every storage call', 'fault_enumeration', 'For the selected operations every crash point is enumerated; every recovery and the continued use is judged.' + _X),
 'C07': (_T + ', crash at every storage call', 'fault_enumeration', 'As C06, with record-level consistency: acknowledged records must all be there.' + _X),
 'C08': (_T, 'exploration', 'All lengths around the page boundaries, all chunk sizes; content compared byte for byte.' + _X),
 'C09': (_T, 'exploration', 'Small variable areas that wrap often; what may be reported as deleted is decided by the specification from the pages on the device.' + _X),
 'C10': (_T + ', crash at every storage call', 'fault_enumeration', 'Variable data after every recovery is judged from the image of the variable file.' + _X),
 'C11': (_T, 'exploration', 'Every write and erase of every run is judged against an image of the device.' + _X),
 'C12': (_T + '; exhaustive TLC model of the learned index with replay of its behaviours', 'exploration', 'Every page search of spline driver scripts is judged; the design model is checked exhaustively within its constants and its behaviours are replayed on the code. Bounded by the generated scripts.'),
 'C13': (_T, 'exploration', 'Interleaved instances are each judged by their own copy of the specification.' + _X),
 'C14': (_T, 'exploration', 'Operator trees over generated stores; the specification computes the relation each tree denotes and TLC compares it with the rows produced. Bounded by the generated trees.'),
 'C15': (_T, 'exploration', 'Aggregations over generated stores with every function and column width; exact integer arithmetic on byte sequences in the specification. Averages are judged while the exact sum fits in 64 bits, with a rounding tolerance.'),
 'C16': (_T, 'exploration', 'Every field around its limits under all feature flags; accepted configurations are then used and judged by the store specification; existing stores are reopened with configurations that must be refused and have to be unharmed.' + _X),
 'C17': (_T + ', failure of every storage call', 'fault_enumeration', 'For the selected inserts, flushes, lookups and iterations each storage call fails in turn; results and the following content are judged. Failures while a store is being opened are not explored.' + _X),
 'C20': (_T, 'exploration', 'Open iterators interleaved with inserts, flushes, lookups and evictions are judged step by step.' + _X),
 'C21': (_T + ', crash at every storage call', 'fault_enumeration', 'Crashes inside recovery, repeated reopening and long crash/reopen/insert cycles.' + _X),
 'C23': (_T, 'exploration', 'The driver accounts for every allocation of the library and for every file it opens; what is left after closing, after a refused initialisation and after closing a query is judged. Memory of aggregate function objects belongs to the user and is not judged. Bounded by the generated scripts.'),
 'C25': (_T + '; exhaustive TLC design model with power losses, its behaviours replayed on the code; power loss at every storage call', 'fault_enumeration', 'For the selected operations a power loss before every page write, erase and flush is enumerated; the files in a mask go back to what they held when they were last flushed; every recovery and the continued use is judged. Unflushed writes of one file are lost together, not one by one.' + _X),
 'C24': (_T, 'exploration', 'The counters of the library are compared with what the storage interface saw, in histories of every kind, with failing transfers and recoveries. Temporary pages of record-level consistency may be counted or not; buffer hits are not judged. Bounded by the generated scripts.'),
 'C18': ('TLA+ specification; TLC judges that both builds take the same observable steps, and judges alternating runs of both builds with the store specification', 'exploration', 'Stores, queries, learned index, bitmaps and comparators on both builds; stores are also run alternately by both builds, handing the storage images over at every reopening. Compared are calls and results, not the order of storage calls. Bounded by the generated scripts.'),
 'C19': (_T + ', processes killed between operations', 'fault_enumeration', 'Random call sequences on several files, full disks (file size limit), sparse files beyond 4 GiB, failing transfers, both builds and the mock that erases; the driver process is killed and a new one resumes on the files. Trusts the kernel to keep what was handed to it, and TLC; bounded by the generated scripts.'),
 'C22': (_T + ', restarts and full cards', 'fault_enumeration', 'The real adapters and wrappers are compiled against a simulated SD card (limited capacity) and a simulated dataflash chip; several files/areas next to each other; transfers that go wrong. Trusts the simulated device libraries in driver/stubs to behave as the vendor documentation says, and TLC; bounded by the generated scripts.'),
}

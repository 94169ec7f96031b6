"""Runtime contract checking of the real Python code: case generation and failure reporting."""
import os, random, signal, sys, time, traceback, types
seed, budget, cur = 1, 5.0, None
for i in range(1, len(sys.argv) - 1, 2):
    if sys.argv[i] == '--seed': seed = int(sys.argv[i + 1])
    if sys.argv[i] == '--budget': budget = float(sys.argv[i + 1])
    if sys.argv[i] == '--cur': cur = sys.argv[i + 1]
rng = random.Random(seed)
_fd = os.open(cur, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644) if cur else -1
evals, seen, samples, _now = 0, set(), [], ''
t0 = time.time()
class Hang(BaseException): pass
def _alarm(*a): raise Hang()
signal.signal(signal.SIGALRM, _alarm)
def more(frac=1.0): return time.time() - t0 < budget * frac
def case(s, nontrivial=True):
    """announce the input of the next call"""
    global evals, _now
    _now = s; evals += 1
    if nontrivial and hash(s) not in seen:
        seen.add(hash(s))
        if len(samples) < 3: samples.append(s)
    signal.alarm(30)
def fail(what):
    sys.stdout.write('FAIL\t%s\t%s\n' % (what.replace('\n', ' ').replace('\t', ' '), _now.replace('\n', ' '))); sys.stdout.flush(); os._exit(3)
def check(c, what):
    if not c: fail(what)
class _Raised:
    def __init__(self, e): self.e = e
def call(f, *a, **k):
    """result of the real function or a Raised object"""
    try: return f(*a, **k)
    except Hang: fail('the call does not terminate')
    except Exception as e: return _Raised(e)
def raised(x): return type(x.e).__name__ if isinstance(x, _Raised) else None
def ok(x, what=''):
    if isinstance(x, _Raised): fail(f'{what} raised {type(x.e).__name__}: {x.e}')
    return x
def undecided(w):
    sys.stdout.write('UNDECIDED\t%s\n' % w.replace('\n', ' ')); sys.stdout.flush(); os._exit(0)
def stub_native(**fns):
    """stands in for the compiled extension, which cannot be built here"""
    m = types.ModuleType('pctsp.libpypctsp')
    class Any_:
        def __init__(self, name): self._n = name
        def __getattr__(self, a):
            if a.startswith('__'): raise AttributeError(a)
            return Any_(self._n + '.' + a)
        def __call__(self, *a, **k): return None
    m.__getattr__ = lambda a: fns[a] if a in fns else Any_(a) if not a.startswith('__') else (_ for _ in ()).throw(AttributeError(a))
    for k, v in fns.items(): setattr(m, k, v)
    sys.modules['pctsp.libpypctsp'] = m
    return m
def main(run):
    random.seed(seed)
    try: run()
    except Hang: fail('the call does not terminate')
    except (ImportError, AttributeError) as e: undecided('driver: ' + repr(e) + traceback.format_exc()[-800:])
    except RecursionError as e: fail('RecursionError')
    signal.alarm(0)
    print('OK\t%d\t%d' % (evals, len(seen)))
    for s in samples: print('SAMPLE\t' + s.replace('\n', ' ')[:600])
    sys.stdout.flush(); os._exit(0)

import datetime as dt, json, os, shutil, tempfile, uuid
from pathlib import Path
import rtpy as rt
rt.stub_native()
import importlib
Result = importlib.import_module('pctsp.vial.result').Result
R = rt.rng
def num(): return R.choice([0, 1, -1, R.randint(-5, 50), R.randint(-10 ** 6, 10 ** 6), R.randint(-2 ** 62, 2 ** 62)])
def time():
    t = dt.datetime(R.randint(1971, 2200), R.randint(1, 12), R.randint(1, 28), R.randint(0, 23), R.randint(0, 59), R.randint(0, 59), R.choice([0, 0, 1, R.randint(0, 999999)]))
    z = R.choice([None, dt.timezone.utc, dt.timezone(dt.timedelta(minutes=R.randint(-700, 700)))])
    return t.replace(tzinfo=z)
def result():
    return Result(vial_uuid=uuid.UUID(int=R.getrandbits(128)), objective=num(), prize=num(), edge_list=[(num(), num()) for _ in range(R.choice([0, 1, 2, 5, 40]))], start_time=time(), end_time=time())
FIELDS = ('vial_uuid', 'objective', 'prize', 'edge_list', 'start_time', 'end_time')
def same(a, b):
    for f in FIELDS: rt.check(getattr(a, f) == getattr(b, f), f'{f} is {getattr(b, f)!r} after reading, {getattr(a, f)!r} was written')
    for f in ('start_time', 'end_time'): rt.check(getattr(a, f).utcoffset() == getattr(b, f).utcoffset(), f'{f} lost its zone')
    rt.check(all(type(e) is tuple for e in b.edge_list), 'edges are tuples')
def run():
    top = Path(tempfile.mkdtemp(prefix='c28-'))
    try:
        n = 0
        while rt.more():
            n += 1
            d = top / f'd{n}'; rs = [result() for _ in range(R.randint(1, 3))]
            if R.random() < .3:
                rt.case(f'write/read {rs[0]!r} in a missing directory', False)
                rt.check(rt.raised(rt.call(rs[0].write_to_json_file, d)) == 'FileNotFoundError', 'writing to a missing directory is reported as FileNotFoundError')
                rt.check(not d.exists(), 'the missing directory is not created')
                rt.check(rt.raised(rt.call(Result.read_from_json_file, d, rs[0].vial_uuid)) == 'FileNotFoundError', 'reading from a missing directory is reported')
            d.mkdir()
            if R.random() < .2:
                rt.case('read a result that was never stored', False)
                rt.check(rt.raised(rt.call(Result.read_from_json_file, d, rs[0].vial_uuid)) is not None, 'reading a missing result is reported')
            if R.random() < .3:      # a longer file of the same name is replaced
                old = result(); old.vial_uuid = rs[0].vial_uuid; old.edge_list = [(i, i + 1) for i in range(50)]
                rt.case(f'overwrite {rs[0]!r}'); rt.ok(rt.call(old.write_to_json_file, d), 'write')
            for r in rs:
                copy = r.model_copy(deep=True)
                rt.case(f'write and read {r!r}')
                p = rt.ok(rt.call(r.write_to_json_file, d), 'write_to_json_file')
                rt.check(Path(p).parent == d and Path(p).is_file(), 'the returned path is the written file'); same(copy, r)
            rt.check(len(list(d.iterdir())) == len(rs), 'one file per result')
            for r in rs:
                rt.case(f'write and read {r!r}')
                same(r, rt.ok(rt.call(Result.read_from_json_file, d, r.vial_uuid), 'read_from_json_file'))
            shutil.rmtree(d)
    finally: shutil.rmtree(top, ignore_errors=True)
rt.main(run)

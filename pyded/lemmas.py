"""Mathematical lemmas behind the contracts (no code of /repo in them), checked by Lean 4 / Mathlib on every run of the properties that use them."""
import os, re, shutil, subprocess, tempfile, time
DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas')
USES = {
    'Field.lean': {'C01', 'C02', 'C03', 'C05'},
    'Geometry.lean': {'C07', 'C14', 'C17', 'C10', 'C21'},
    'Loops.lean': {'C04', 'C06', 'C09'},
}


def start(prop):
    out = []
    for f, props in USES.items():
        if prop in props:
            src = open(os.path.join(DIR, f)).read()
            names = re.findall(r'^theorem (\w+)', src, re.M)
            lean = shutil.which('lean')
            tmp = tempfile.TemporaryFile('w+')
            p = subprocess.Popen([lean, f], cwd=DIR, stdout=tmp, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL) if lean else None
            out.append((f, names, p, tmp, time.time()))
    return out


def finish(started, limit=100):
    out = []
    t1 = time.time()
    for f, names, p, tmp, t0 in started:
        ok, why = False, 'lean not found'
        if p is not None:
            try:
                rc = p.wait(max(1, limit - (time.time() - t1)))
                tmp.seek(0)
                txt = tmp.read()
                ok = rc == 0 and 'error' not in txt and 'sorry' not in txt
                why = '' if ok else txt[-300:]
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                why = 'time limit'
        tmp.close()
        out.append({'file': 'lemmas/' + f, 'checker': 'lean (Mathlib)', 'lemmas': names, 'ok': ok, 'time_s': round(time.time() - t0, 1), 'why': why})
    return out

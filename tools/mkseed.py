"""python tools/mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]."""
import json, os, runpy, subprocess, sys, tempfile, shutil
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PRE = '''import sys, os, tempfile, shutil, logging
logging.disable(logging.CRITICAL)
os.chdir(tempfile.mkdtemp(prefix='demo'))
import atexit; atexit.register(shutil.rmtree, os.getcwd(), True)
import plasTeX
from plasTeX.TeX import TeX
from plasTeX import TeXDocument, TeXFragment
from plasTeX.Config import defaultConfig


def parse(src, config=None):
    doc = TeXDocument(config=config) if config is not None else TeXDocument()
    t = TeX(doc)
    t.input(src)
    return t.parse()


def expect(got, want, what=''):
    if got != want:
        print('FAIL %s: got %r, expected %r' % (what, got, want))
        sys.exit(1)


'''
RENDER = '''def render(src, renderer='HTML5', theme='default', **over):
    import importlib
    from plasTeX.Renderers.HTML5.Config import addConfig
    c = defaultConfig()
    addConfig(c)
    c['images']['enabled'] = False
    c['images']['imager'] = c['images']['vector-imager'] = 'none'
    c['general']['renderer'] = renderer
    c['general']['theme'] = theme
    c['general']['copy-theme-extras'] = False
    for k, v in over.items():
        a, b = k.split('__')
        c[a][b.replace('_', '-')] = v
    doc = TeXDocument(config=c)
    doc.userdata['jobname'] = 'job'
    doc.userdata['working-dir'] = os.getcwd()
    t = TeX(doc)
    t.input(src)
    t.parse()
    importlib.import_module('plasTeX.Renderers.' + renderer).Renderer().render(doc)
    out = {}
    for f in sorted(os.listdir('.')):
        if f.endswith('.html'):
            with open(f, 'rb') as fd:
                out[f] = fd.read().decode(c['files']['output-encoding'])
            os.remove(f)
    return out


'''
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    d = os.path.join(V, s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed')
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    for f, old, new in s['edits']:
        p = os.path.join(w, 'r', f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True, check=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(PRE + (RENDER if 'render(' in s['demo'] else '') + s['demo'].lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(w)
    print('made', s['id'])

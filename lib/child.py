"""Child process: replays behaviours with one driver. argv: driver, input, output"""
import sys, os, json, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'drivers'))
def main():
    drv, inp, outp = sys.argv[1:4]
    cfg = json.load(open(inp))
    if cfg['so']:
        sys.path.insert(0, cfg['so'])
        import mrobx
    else:
        mrobx = None
    mod = importlib.import_module(drv)
    d = mod.Driver(mrobx, cfg.get('opts') or {}, cfg['seed'])
    with open(outp, 'w', buffering=1) as out:
        for idx, item in cfg['items']:
            out.write(json.dumps({'begin': idx}) + '\n'); out.flush()
            d.mism, d.checks, d.data, d.bad = [], 0, None, False
            d.run(item)
            for m in d.mism[:5]:
                m['index'] = idx
                out.write(json.dumps(m) + '\n')
            out.write(json.dumps({'end': idx, 'checks': d.checks, 'data': d.data}) + '\n')
        out.write(json.dumps({'all': 1}) + '\n')
    os._exit(0)
main()

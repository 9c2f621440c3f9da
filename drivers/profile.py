"""Replays TimeProfile histories on mrob TimeProfiling.  Intervals are bounded by readings of the real clock around the
calls; with opts['unit'] the profiler reads a clock the driver sets (waits count in that many microseconds) and every
interval has one exact value."""
import re
from drv import *
class Driver(Base):
    def run(self, hist):
        mx = self.mx; unit = self.opts.get('unit')
        self.t = 0
        if unit:
            # is the clock the profiler reads the one we set?
            mx.virtual_clock(True, 7000); c = mx.clock_calls(); p = mx.TimeProfiling(); p.start(); p.stop('x')
            if mx.clock_calls() < c + 2: mx.virtual_clock(False, 0); unit = None
        try: self.events(hist, unit)
        finally: mx.virtual_clock(False, 0)
    def events(self, hist, unit):
        mx = self.mx
        if unit:
            self.t = 1000; mx.virtual_clock(True, self.t)
            now = lambda: float(self.t)
        else: now = mx.now
        def wait(k):
            if unit: self.t += k * unit; mx.virtual_clock(True, self.t); return
            end = now() + k
            while now() < end: pass
        P = [mx.TimeProfiling()]; win = [None]; seen = [[]]     # seen[o]: the recorded intervals as observed
        slack = 0 if unit else 1.001
        for k, h in enumerate(hist, 1):
            op, o = h['op'], h['o'] - 1; what = 'event %d %s' % (k, op)
            if op == 'wait': wait(h['k']); win.append(None); continue
            p = P[o]
            calls = [op]
            if op == 'burst': calls = ['start', 'stop'] * h['n']
            for j, call in enumerate(calls):
                before = p.total()
                if j % 2: wait(h['w'])
                a = now()
                if call == 'start': p.start()
                elif call == 'stop': p.stop(h['k'])
                elif call == 'stop_unnamed': p.stop_unnamed()
                elif call == 'reset': p.reset()
                elif call == 'copy': c = p.copy()
                b = now()
                win.append((a, b))
                if call.startswith('stop'):
                    i = len(seen[o])
                    f = win[h['rec'][o][i][1]]
                    d = p.total() - before
                    # the profiler keeps whole microseconds
                    if unit: self.close('interval', d, a - f[0], 1e-12 * p.total(), what + ': interval recorded, in microseconds')
                    else: self.true('interval', a - f[1] - slack <= d <= b - f[0] + 0.001, what + ': recorded %g microseconds, between %g and %g passed since the latest start' % (d, a - f[1], b - f[0]))
                    seen[o].append(a - f[0] if unit else d)
            if op == 'copy': P.append(c); seen.append(list(seen[o]))
            if op == 'reset': seen[o] = []
            for i, r in enumerate(h['rec']):
                self.close('total', P[i].total(), sum(seen[i]), 1e-9 * (1 + sum(seen[i])), what + ': total of profiler %d' % (i + 1))
                self.true('total', len(seen[i]) == len(r), what)
            if op == 'report' or k == len(hist): 
                for i, r in enumerate(h['rec']): self.report(P[i], r, seen[i], what)
            if self.bad: return
    def report(self, p, r, seen, what):
        s = sum(seen); t = p.report()
        self.close('total', p.total(), s, 1e-9 * (1 + s), what + ': total after a report')
        body = t[t.index(']') + 1:] if ']' in t else t
        got = re.findall(r'(\w*)\s*=\s*([-+.\dea-z]+)\s*%', body)
        self.true('report', [g[0] for g in got] == [x[0] for x in r], what + ': labels %s instead of %s in the report' % ([g[0] for g in got], [x[0] for x in r]))
        if self.bad or s == 0: return
        m = re.search(r'([-+.\de]+)\s*\[ms\]', t)
        if self.true('report', m is not None, what + ': no total in the report'): self.close('report', float(m.group(1)), s / 1e3, 1e-4 * s / 1e3, what + ': total in the report')
        self.close('report', [float(g[1]) for g in got], [100 * d / s for d in seen], 1e-3, what + ': shares in the report')

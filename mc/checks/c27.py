"""C27: the measured clock offset is right to within the round-trip delay."""
from ..harness import Sys, other, pick, serve, threads, true

ASSUMPTIONS = [
    'the two clocks run at the same rate; messages of one connection stay in order',
    'a round trip lasts from sending a request until its reply is there',
]
TECHNIQUE = ('exhaustive enumeration of message delays (every choice of up to k delayed messages in either direction, '
             'from a set of delays) x clock offsets, executed by the real client and server in virtual time')
OFFSETS = (0.0, 250.0, -2e9, -250.0, 0.02, -0.02, 3e5, -3e5)


class Measure(Sys):

    def __init__(self, menu, latency=0.0, load='idle', mode='forever', offs=8, **kw):
        Sys.__init__(self, **kw)
        self.load, self.mode, self.offs = load, mode, offs
        self.opts = {'delays': menu, 'latency': latency, 'fairq': False}
        self.name = 'measure-%s-%s-%s-%s' % ('+'.join(map(str, menu)), latency, load, mode)

    def main(self, w):
        off = OFFSETS[pick(w, self.offs, 'offset')]
        both = pick(w, 2, 'which') if off else 0
        rec = serve(w, 's', self.mode)
        calls = []
        ltime, rtime = w.img.modules['time'], rec.img.modules['time']
        # (the offset is on one side or the other)
        loff = -off if both else 0.0
        roff = 0.0 if both else off
        lp, rp = ltime.perf_counter, rtime.perf_counter

        def remote():
            calls.append(w.sched.now)
            return rp() + roff
        if loff:
            ltime.perf_counter = lambda: lp() + loff
        rtime.perf_counter = remote
        c = w.tp.RPCClient(rec.addr)
        t = c._import('mct_tgt')
        what = 'offset %g, %s' % (off, self.load)
        sent = []
        mine = w.img._get_ident()

        def measure(c, sent):
            n0 = len(sent)
            d = c.measure_clock_diff()
            sent = sent[n0:] + [w.sched.now]
            rts = []
            for k in range(len(sent) - 1):
                if any(sent[k] - 1e-9 <= x <= sent[k + 1] + 1e-9 for x in calls):
                    rts.append(sent[k + 1] - sent[k])
            true(len(rts) >= 2, '%s: only %d measurements' % (what, len(rts)))
            longest = max(rts)
            true(abs(d - off) <= longest / 2 + 1e-6 + abs(off) * 1e-14,
                 '%s: measured %.6f; the longest round trip took %.6f' % (what, d, longest))
            return d, longest

        def mon(sock, conn, frames):
            if sock.image is w.img:
                if w.img._get_ident() == mine and sock.type == 5:
                    sent.append(w.sched.now)
        w.net.monitor = mon
        if self.load == 'busy':
            # another process keeps the server busy
            def f(r):
                s = r.tp.RPCClient(rec.addr)._import('mct_tgt')
                for i in range(4):
                    s.slow(i, 0.03)
            o = other(w, 'q', f)
            w.sched.sleep(0.03, 'harness-wait')
        elif self.load == 'pending':
            futs = [t.slow(i, 0.01, _sync='async') for i in range(3)]
        elif self.load == 'proxies':
            c.default_proxy_options['sync'] = 'sync'
        w.free_on()
        d, l = measure(c, sent)
        if self.load == 'twice':
            measure(c, sent)
        w.free_off()
        if self.load == 'pending':
            true([f.result(1)[1] for f in futs] == [0, 1, 2], what)
        w.cases += 1
        w.note(off, round(d, 4), round(l, 4))


class Pattern(Measure):
    """Each message of the measurement takes its time, by a repeated pattern, or differently in one place."""

    def __init__(self, period, menu, base=0.0, **kw):
        Measure.__init__(self, (), **kw)
        self.period, self.menu, self.base = period, menu, base
        self.offs = 3
        self.name = 'pattern-%d-%s' % (period, '+'.join(map(str, menu)))

    def main(self, w):
        seq = [(self.menu[pick(w, len(self.menu), 'request')], self.menu[pick(w, len(self.menu), 'reply')])
               for i in range(self.period)]
        at = (0, 4, 9, 12)[pick(w, 4, 'from')] if self.period > 1 else 0
        # (the last of the pattern lasts)
        n = {}

        def lat(sock, conn, frames):
            k = sock.image.name
            n[k] = i = n.get(k, -1) + 1
            j = max(0, i - at)
            if at:
                return seq[min(j, len(seq) - 1)][k == 's']
            return seq[j % len(seq)][k == 's']
        w.net.latency_of = lat
        self.load = 'delays %s from message %d' % (seq, at)
        Measure.main(self, w)


def scenarios(tier):
    q = tier == 'quick'
    L = [(Pattern(1, (0.0, 0.002, 0.03, 0.4)), 0), (Pattern(2, (0.0, 0.03)), 0), (Pattern(3, (0.0, 0.03) if q else (0.0, 0.03, 0.4)), 0),
         (Measure((0.004, 0.05), 0.0, offs=3), 1 if q else 3), (Measure((0.05,), 0.002, offs=3), 2 if q else 3),
         (Measure((0.004, 0.3), 0.001, 'busy', offs=3), 1 if q else 2),
         (Measure((0.05,), 0.0, 'pending', offs=3), 1 if q else 2),
         (Measure((0.05,), 0.001, 'twice', offs=3), 1 if q else 2),
         (Measure((0.05,), 0.001, 'idle', 'qt', offs=3), 1 if q else 2)]
    return L

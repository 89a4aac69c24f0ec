"""Development aid: replay a recorded violation and show where every thread was at its end."""
import json
import sys
import traceback
sys.path.insert(0, '/verif')
from mc import explore, harness, runner, sched
rec = json.load(open(sys.argv[1]))
m = runner.load(rec['property'])


def show(w):
    fr = sys._current_frames()
    for t in w.sched.tasks:
        if not t.done and t.os_ident in fr:
            print('==', t.name, t.where, 'dead' if t.dead else '')
            for f in traceback.extract_stack(fr[t.os_ident])[-14:]:
                if '/repo/' in f.filename or '/checks/' in f.filename or 'targets' in f.filename:
                    print('    %s:%d %s' % (f.filename[-30:], f.lineno, f.line))


class W(explore.World):
    def run(self, *a):
        s = self.sched
        orig = s.finish

        def fin(st):
            if not s.finished:
                show(self)
            orig(st)
        s.finish = fin
        return super().run(*a)


explore.World = W
for s, b in m.scenarios(rec['tier']):
    if s.name == rec['scenario']:
        r = explore.run_one(s, bytes.fromhex(rec['choices']), labels=True)
        print('\n'.join(r.labels[-int(sys.argv[2]) if len(sys.argv) > 2 else -30:]))
        print(r.status, r.violation, r.error)

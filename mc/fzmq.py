"""In-memory ZeroMQ: the part of pyzmq's behaviour the package can rely on."""
import collections
import json as _json
import types

import zmq as _z
import zmq.error as _zerr

from . import lines
from . import sched as S

Z = _z
ETERM = _z.ETERM


def err(errno, msg=None):
    return _zerr.ZMQError(errno, msg)


class Conn:
    """One established or pending link from a connecting to a bound socket."""
    __slots__ = ('a', 'b', 'addr', 'up', 'qa', 'qb', 'pending', 'ident_a', 'ident_b', 'b_gone', 'a_gone',
                 'ignored', 'last_a', 'last_b', 'up_at')

    def __init__(self, a, addr):
        self.a = a                  # connecting socket
        self.b = None               # bound socket
        self.addr = addr
        self.up = False
        self.qa = collections.deque()      # messages for a: (ready_at, seq, frames)
        self.qb = collections.deque()      # messages for b
        self.pending = collections.deque()  # sent by a before the link was up
        self.ident_a = None         # identity under which b knows a
        self.ident_b = None
        self.a_gone = self.b_gone = False
        self.ignored = False        # duplicate identity: b never sees it
        self.last_a = self.last_b = 0.0
        self.up_at = 0.0


class Undo:
    """What bind() and connect() return: may be used in a with statement."""

    def __init__(self, f, addr):
        self.f, self.addr = f, addr

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f(self.addr)


class Net:
    def __init__(self, world):
        self.world = world
        self.bound = {}             # endpoint -> Socket
        self.next_port = 50000
        self.seq = 0
        self.auto_id = 0
        self.conns = []
        self.faults = []            # misuse of sockets (concurrent use)
        self.delay_menu = ()        # extra latencies offered as deviations
        self.delay_filter = None
        self.base_latency = 0.0
        self.latency_of = None      # function of the sending socket, connection and frames
        self.hwm_map = None         # function applied to every HWM value
        self.linger_drop = False
        self.sent = 0
        self.refuse = {}            # tcp endpoint -> 'refused' | 'timeout'
        self.dropped = []           # messages dropped (HWM)
        self.monitor = None
        self.gone_idents = {}
        self.ghost_dev = False

    def nextseq(self):
        self.seq += 1
        return self.seq


class Socket:
    _next = 0

    def __init__(self, ctx, stype):
        img = ctx.image
        d = self.__dict__
        d['ctx'] = ctx
        d['context'] = ctx
        d['image'] = img
        d['world'] = img.world
        d['net'] = img.world.net
        d['type'] = stype
        d['socket_type'] = stype
        d['closed_'] = False
        d['opts'] = {Z.LINGER: -1, Z.RCVTIMEO: -1, Z.SNDTIMEO: -1, Z.SNDHWM: 1000, Z.RCVHWM: 1000,
                     Z.IDENTITY: b'', Z.IMMEDIATE: 0, Z.ROUTER_MANDATORY: 0, Z.ROUTER_HANDOVER: 0}
        d['endpoints'] = []
        d['last_ep'] = b''
        d['conns'] = []
        d['rr'] = 0
        d['users'] = []
        d['busy'] = None
        d['sending'] = False
        d['partial'] = []
        d['outpart'] = []
        ctx.socks.append(self)
        img.sockets.append(self)
        d['num'] = len(img.sockets)

    # -- option plumbing ------------------------------------------------
    def setsockopt(self, opt, val):
        self._chk()
        if int(opt) == int(Z.IDENTITY) and isinstance(val, str):
            raise TypeError('unicode not allowed, use setsockopt_string')
        if int(opt) in _OPTNUM:
            opt = _OPTNUM[int(opt)]
            if opt is Z.HWM:
                self.opts[Z.SNDHWM] = self.opts[Z.RCVHWM] = int(val)
                return
        if opt == Z.IDENTITY:
            if not isinstance(val, bytes):
                raise TypeError('expected bytes, got: %r' % (val,))
            if not (0 < len(val) <= 255):
                raise err(Z.EINVAL)
        elif not isinstance(val, (bytes, str)):
            val = int(val)
        self.opts[opt] = val

    set = setsockopt

    def setsockopt_string(self, opt, val, encoding='utf-8'):
        self.setsockopt(opt, val.encode(encoding))

    set_string = setsockopt_string

    def getsockopt(self, opt):
        self._chk()
        if opt == Z.LAST_ENDPOINT:
            return self.last_ep
        if opt == Z.TYPE:
            return self.type
        if opt == Z.EVENTS:
            m = 0
            if self._readable():
                m |= Z.POLLIN
            if self._writable():
                m |= Z.POLLOUT
            return m
        if opt == Z.RCVMORE:
            return 1 if self.partial else 0
        if opt == Z.HWM:
            return self.opts[Z.SNDHWM]
        if opt == Z.FD:
            raise S.HarnessError('zmq FD option not simulated')
        return self.opts.get(opt, 0)

    get = getsockopt

    def getsockopt_string(self, opt, encoding='utf-8'):
        return self.getsockopt(opt).decode(encoding)

    get_string = getsockopt_string

    def get_hwm(self):
        return self.opts[Z.SNDHWM]

    def set_hwm(self, v):
        self._chk()
        self.opts[Z.SNDHWM] = self.opts[Z.RCVHWM] = int(v)

    hwm = property(get_hwm, set_hwm)

    def __setattr__(self, name, val):
        if name in self.__dict__ or name == 'hwm':
            object.__setattr__(self, name, val)
            return
        o = getattr(Z, name.upper(), None)
        if o is None or not isinstance(o, _z.SocketOption):
            object.__setattr__(self, name, val)
            return
        self.setsockopt(o, val)

    def __getattr__(self, name):
        if name == 'closed':
            return self.closed_
        if name == 'last_endpoint':
            return self.getsockopt(Z.LAST_ENDPOINT)
        o = getattr(Z, name.upper(), None) if not name.startswith('_') else None
        if o is not None and isinstance(o, _z.SocketOption):
            return self.getsockopt(o)
        raise AttributeError(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __repr__(self):
        return '<SimSocket %s>' % self.type

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def _chk(self):
        if self.closed_:
            raise err(Z.ENOTSOCK)
        if self.ctx.terminated:
            raise _zerr.ContextTerminated()

    # -- concurrency ------------------------------------------------------
    def _enter(self, op):
        """Scheduling point at entry of an operation; detects concurrent use."""
        s = S.cur()
        self._chk()
        s.point('%s.%d.%s' % (self.image.name, self.num, op))
        self._chk()
        me = s.current
        if me.name not in self.users:
            self.users.append(me.name)
        if self.busy is not None and self.busy is not me and not self.busy.done and not self.busy.dead:
            self.net.faults.append('socket %s of %s used by %s (%s) while %s is using it' % (
                self.num, self.image.name, me.name, op, self.busy.name))
        return s

    # -- bind / connect -----------------------------------------------------
    def bind(self, addr):
        s = self._enter('bind')
        if isinstance(addr, bytes):
            addr = addr.decode()
        if not isinstance(addr, str):
            raise TypeError('expected str, got: %r' % (addr,))
        proto, sep, rest = addr.partition('://')
        if not sep:
            raise err(Z.EINVAL)
        net = self.net
        if proto == 'tcp':
            host, c, port = rest.rpartition(':')
            if not c or not host:
                raise err(Z.EINVAL)
            if host in ('localhost',):
                host = '127.0.0.1'
            if host == '*':
                host = '0.0.0.0'
            if not _is_ip(host):
                raise err(19, 'No such device (addr=%r)' % addr)
            if port in ('*', '0', '!'):
                while ('tcp://%s:%d' % (host, net.next_port)) in net.bound:
                    net.next_port += 1
                port = net.next_port
                net.next_port += 1
            else:
                try:
                    port = int(port)
                except ValueError:
                    raise err(Z.EINVAL)
                if not 0 < port < 65536:
                    raise err(Z.EINVAL)
            ep = 'tcp://%s:%d' % (host, port)
            key = ep
        elif proto == 'inproc':
            ep = addr
            key = (id(self.ctx), addr)
        elif proto == 'ipc':
            ep = key = addr
        else:
            raise err(Z.EPROTONOSUPPORT)
        if key in net.bound:
            raise err(Z.EADDRINUSE, 'Address already in use (addr=%r)' % addr)
        net.bound[key] = self
        self.endpoints.append(key)
        self.__dict__['last_ep'] = ep.encode()
        for c in list(net.conns):
            if not c.up and not c.a_gone and _matches(c.addr, key):
                net_link(net, c, self)
        return Undo(self.unbind, ep)

    def bind_to_random_port(self, addr, min_port=49152, max_port=65536, max_tries=100):
        self.bind(addr + ':*')
        return int(self.last_ep.rpartition(b':')[2])

    def unbind(self, addr):
        self._chk()
        if isinstance(addr, bytes):
            addr = addr.decode()
        for k in list(self.endpoints):
            if k == addr or (isinstance(k, tuple) and k[1] == addr):
                self.endpoints.remove(k)
                self.net.bound.pop(k, None)
                return
        raise err(2, 'No such file or directory')

    def connect(self, addr):
        s = self._enter('connect')
        if isinstance(addr, bytes):
            addr = addr.decode()
        if not isinstance(addr, str):
            raise TypeError('expected str, got: %r' % (addr,))
        proto, sep, rest = addr.partition('://')
        if not sep:
            raise err(Z.EINVAL)
        if proto == 'tcp':
            host, c, port = rest.rpartition(':')
            if not c or not host or not port.isdigit() or not 0 < int(port) < 65536:
                raise err(Z.EINVAL)
            key = 'tcp://%s:%d' % ('127.0.0.1' if host == 'localhost' else host, int(port))
        elif proto == 'inproc':
            key = (id(self.ctx), addr)
        elif proto == 'ipc':
            key = addr
        else:
            raise err(Z.EPROTONOSUPPORT)
        net = self.net
        c = Conn(self, key)
        self.conns.append(c)
        net.conns.append(c)
        self.__dict__['last_ep'] = addr.encode()
        b = _find_bound(net, key)
        if b is not None:
            net_link(net, c, b)
        return Undo(self.disconnect, addr)

    def disconnect(self, addr):
        self._chk()
        if isinstance(addr, bytes):
            addr = addr.decode()
        for c in list(self.conns):
            k = c.addr[1] if isinstance(c.addr, tuple) else c.addr
            if k == addr.replace('localhost', '127.0.0.1'):
                _drop_a(self.net, c)
                self.conns.remove(c)
                return
        raise err(2, 'No such file or directory')

    # -- readiness ------------------------------------------------------
    def _inq(self, c):
        return c.qa if c.a is self else c.qb

    def _heads(self):
        """Connections with a message that has arrived."""
        now = self.world.sched.now
        out = []
        for c in self.conns:
            if c.ignored and c.b is self:
                continue
            q = c.qa if c.a is self else c.qb
            if q and q[0][0] <= now:
                out.append((q[0][1], c, q))
        if len(out) > 1:
            out.sort(key=lambda x: x[0])
        return out

    def _readable(self):
        if self.partial:
            return True
        now = self.world.sched.now
        for c in self.conns:
            q = c.qa if c.a is self else c.qb
            if q and q[0][0] <= now and not (c.ignored and c.b is self):
                return True
        return False

    def _next_ready(self):
        m = None
        for c in self.conns:
            q = c.qa if c.a is self else c.qb
            if q and (m is None or q[0][0] < m) and not (c.ignored and c.b is self):
                m = q[0][0]
        return m

    def _hw(self, o, opt):
        v = o.opts[opt]
        f = self.net.hwm_map
        return f(v) if f is not None else v

    def _room(self, c):
        """Can a message be put on connection c?"""
        if c.a is self:
            q = len(c.qb) + len(c.pending)
            peer = c.b
        else:
            q = len(c.qa)
            peer = c.a
        h = self._hw(self, Z.SNDHWM)
        if h == 0:
            return True
        if peer is not None:
            ph = self._hw(peer, Z.RCVHWM)
            if ph == 0:
                return True
            h += ph
        return q < h

    def _links(self):
        """Connections on which this socket may send."""
        out = []
        for c in self.conns:
            if c.a is self and not c.a_gone:
                if not c.up and self.opts[Z.IMMEDIATE]:
                    continue
                out.append(c)
            elif c.b is self and c.up and not c.ignored:
                out.append(c)
        return out

    def _writable(self):
        if self.type == Z.ROUTER:
            return True
        if self.type in (Z.PULL, Z.SUB):
            return False
        return any(self._room(c) for c in self._links())

    # -- send -------------------------------------------------------------
    def _push(self, c, frames):
        net = self.net
        s = self.world.sched
        lat = net.base_latency
        if net.latency_of is not None:
            lat = net.latency_of(self, c, frames)
        if net.delay_menu and (net.delay_filter is None or net.delay_filter(self, c, frames)):
            k = s.choose(1 + len(net.delay_menu), 'delay:%s.%d' % (self.image.name, self.num))
            if k:
                lat = net.delay_menu[k - 1]
        if net.monitor is not None:
            net.monitor(self, c, frames)
        at = s.now + lat
        net.sent += 1
        if c.a is self:
            at = max(at, c.last_a)
            c.last_a = at
            if at > s.now:
                s.wakes.append(at)
            if not c.up:
                c.pending.append((at, net.nextseq(), frames))
            else:
                c.qb.append((at, net.nextseq(), frames))
        else:
            at = max(at, c.last_b)
            c.last_b = at
            if at > s.now:
                s.wakes.append(at)
            if not c.a_gone:
                c.qa.append((at, net.nextseq(), frames))

    def send_multipart(self, parts, flags=0, copy=True, track=False, **k):
        frames = []
        for i, p in enumerate(parts):
            if isinstance(p, bytes):
                frames.append(p)
            elif isinstance(p, (bytearray, memoryview)):
                frames.append(bytes(p))
            elif hasattr(p, 'bytes'):
                frames.append(p.bytes)
            else:
                raise TypeError("Frame %i (%s) does not support the buffer interface." % (i, repr(p)[:10]))
        s = self._enter('send')
        if lines.hook is not None and len(frames) > 1:
            # (the frames are sent one by one)
            if self.sending:
                self.net.faults.append('socket %s of %s: message sent in the middle of another one' % (
                    self.num, self.image.name))
            self.__dict__['sending'] = True
            try:
                lines.hook(None, 0)
            finally:
                self.__dict__['sending'] = False
        self._send(s, frames, flags)

    def send(self, data, flags=0, copy=True, track=False, routing_id=None, group=None):
        if isinstance(data, str):
            raise TypeError("unicode not allowed, use send_string")
        if isinstance(data, _z.Frame):
            data = data.bytes
        if not isinstance(data, bytes):
            data = bytes(memoryview(data))
        s = self._enter('send')
        if flags & Z.SNDMORE:
            self.outpart.append(data)
            return
        frames = self.outpart + [data]
        self.__dict__['outpart'] = []
        self._send(s, frames, flags & ~Z.SNDMORE)

    def _send(self, s, frames, flags):
        t = self.type
        self.__dict__['busy'] = s.current
        try:
            if t == Z.ROUTER:
                if len(frames) < 1:
                    return
                ident, rest = frames[0], frames[1:]
                for c in self.conns:
                    mine = c.ident_a if c.b is self else c.ident_b
                    if mine == ident and c.up and not c.ignored:
                        if self._room(c):
                            self._push(c, rest)
                        else:
                            if self.opts[Z.ROUTER_MANDATORY]:
                                self._wait_send(s, c, flags)
                                self._push(c, rest)
                                return
                            self.net.dropped.append((self.image.name, ident))
                        return
                if self.opts[Z.ROUTER_MANDATORY]:
                    raise err(Z.EHOSTUNREACH)
                return
            if t in (Z.PULL, Z.SUB):
                raise err(Z.ENOTSUP)
            if t == Z.PUB:
                for c in self._links():
                    if self._room(c):
                        self._push(c, frames)
                return
            c = self._pick_link()
            if c is None:
                self._wait_send(s, None, flags)
                c = self._pick_link()
            self._push(c, frames)
        finally:
            self.__dict__['busy'] = None

    def _pick_link(self):
        ls = [c for c in self._links() if self._room(c)]
        if not ls:
            return None
        if self.type == Z.PAIR:
            return ls[0]
        self.__dict__['rr'] = (self.rr + 1) % len(ls)
        return ls[self.rr - 1] if len(ls) > 1 else ls[0]

    def _wait_send(self, s, c, flags):
        if flags & Z.NOBLOCK:
            self._spin(s)
            raise _zerr.Again(Z.EAGAIN)
        to = self.opts[Z.SNDTIMEO]
        ok = s.block(lambda: self.closed_ or self.ctx.terminated or
                     (self._room(c) if c is not None else self._pick_link() is not None),
                     None if to < 0 else to / 1000.0, 'send-blocked')
        self._chk()
        if not ok:
            raise _zerr.Again(Z.EAGAIN)

    def send_json(self, obj, flags=0, **k):
        sk = {x: k.pop(x) for x in ('routing_id', 'group') if x in k}
        self.send(_json.dumps(obj, separators=k.pop('separators', (',', ':')), **k).encode('utf-8'), flags)

    def send_string(self, u, flags=0, copy=True, encoding='utf-8', **k):
        if not isinstance(u, str):
            raise TypeError('str objects only')
        self.send(u.encode(encoding), flags)

    def send_pyobj(self, obj, flags=0, protocol=-1, **k):
        import pickle
        self.send(pickle.dumps(obj), flags)

    # -- receive ------------------------------------------------------------
    def _spin(self, s):
        t = s.current
        if t.spin_at == s.now:
            t.spin += 1
        else:
            t.spin, t.spin_at = 1, s.now
        if t.spin > 3:
            t.spin = 0
            s.sleep(0.0005, 'spin')

    def _take(self, s, flags):
        """Wait for a message; returns (conn, frames)."""
        if self.type in (Z.PUSH, Z.PUB):
            raise err(Z.ENOTSUP)
        if not self._readable():
            if flags & Z.NOBLOCK:
                self._spin(s)
                self._chk()
                if not self._readable():
                    raise _zerr.Again(Z.EAGAIN)
            else:
                to = self.opts[Z.RCVTIMEO]
                if to == 0:
                    self._spin(s)
                    self._chk()
                    if not self._readable():
                        raise _zerr.Again(Z.EAGAIN)
                else:
                    final = None if to < 0 else s.now + to / 1000.0
                    self.__dict__['busy'] = s.current
                    try:
                        ok = self._wait_readable(s, final)
                    finally:
                        self.__dict__['busy'] = None
                    self._chk()
                    if not ok:
                        raise _zerr.Again(Z.EAGAIN)
        hs = self._heads()
        k = 0
        if len(hs) > 1 and self.world.fairq_dev:
            k = s.choose(len(hs), 'fairq:%s.%d' % (self.image.name, self.num))
        _, c, q = hs[k]
        at, seq, frames = q.popleft()
        if self.type == Z.ROUTER:
            ident = c.ident_a if c.b is self else c.ident_b
            frames = [ident] + list(frames)
        return frames

    def _wait_readable(self, s, final):
        def dl():
            n = self._next_ready()
            if n is None or n <= s.now:
                n = None
            if final is not None and (n is None or final < n):
                n = final
            return n, final
        return s.block_until(lambda: self.closed_ or self.ctx.terminated or self._readable(), dl, 'recv')

    def recv_multipart(self, flags=0, copy=True, track=False):
        s = self._enter('recv')
        if self.partial:
            f, self.__dict__['partial'] = self.partial, []
        else:
            f = list(self._take(s, flags))
        return f if copy else [_z.Frame(x) for x in f]

    def recv(self, flags=0, copy=True, track=False):
        s = self._enter('recv')
        if self.partial:
            r = self.partial.pop(0)
        else:
            f = list(self._take(s, flags))
            self.__dict__['partial'] = f[1:]
            r = f[0] if f else b''
        return r if copy else _z.Frame(r)

    def recv_json(self, flags=0, **k):
        return _json.loads(self.recv(flags).decode('utf-8'), **k)

    def recv_string(self, flags=0, encoding='utf-8'):
        return self.recv(flags).decode(encoding)

    def recv_pyobj(self, flags=0):
        import pickle
        return pickle.loads(self.recv(flags))

    def poll(self, timeout=None, flags=1):
        if self.closed_:
            raise err(Z.ENOTSUP)
        s = self._enter('poll')
        p = Poller_for(self.image)()
        p.register(self, flags)
        r = dict(p._poll(s, timeout))
        return r.get(self, 0)

    # -- close ----------------------------------------------------------------
    def close(self, linger=None):
        if self.closed_:
            return
        s = S.cur()
        s.point('%s.%d.close' % (self.image.name, self.num))
        if self.closed_:
            return
        if self.busy is not None and self.busy is not s.current and not self.busy.done and not self.busy.dead:
            self.net.faults.append('socket %s of %s closed by %s while %s is using it' % (
                self.num, self.image.name, s.current.name, self.busy.name))
        if linger is not None:
            self.opts[Z.LINGER] = int(linger)
        self._die(graceful=True)

    def _die(self, graceful=False):
        if self.closed_:
            return
        d = self.__dict__
        d['closed_'] = True
        net = self.net
        s = self.world.sched
        for k in self.endpoints:
            if net.bound.get(k) is self:
                del net.bound[k]
        d['closed_endpoints'] = list(self.endpoints)
        d['endpoints'] = []
        drop = 0
        if graceful and self.opts[Z.LINGER] == 0 and net.linger_drop:
            if any((c.qb if c.a is self else c.qa) for c in self.conns):
                drop = s.choose(2, 'linger-drop')
        for c in list(self.conns):
            if c.a is self:
                if not c.up and graceful and c.pending and self.opts[Z.LINGER] != 0:
                    # keeps trying to deliver for the linger time
                    lg = self.opts[Z.LINGER]
                    c.up_at = 1e18 if lg < 0 else s.now + lg / 1000.0
                    self.ctx.lingering.append((c, None if lg < 0 else c.up_at))
                    c.qa.clear()
                    continue
                if drop:
                    c.qb.clear()
                _drop_a(net, c)
            else:
                if drop:
                    c.qa.clear()
                _drop_b(net, c)
        d['conns'] = []
        try:
            self.ctx.socks.remove(self)
        except ValueError:
            pass

    def __del__(self):
        # a collected socket is closed, as in pyzmq
        try:
            if not self.closed_ and S.STATE is self.world.sched and not self.world.sched.aborting:
                self._die(graceful=True)
        except BaseException:
            pass


def _is_ip(h):
    p = h.split('.')
    return len(p) == 4 and all(x.isdigit() and int(x) < 256 for x in p)


def _matches(addr, key):
    if addr == key:
        return True
    if isinstance(addr, str) and isinstance(key, str) and key.startswith('tcp://0.0.0.0:'):
        return addr.startswith('tcp://') and addr.rpartition(':')[2] == key.rpartition(':')[2]
    return False


def _find_bound(net, addr):
    b = net.bound.get(addr)
    if b is None and isinstance(addr, str) and addr.startswith('tcp://'):
        b = net.bound.get('tcp://0.0.0.0:' + addr.rpartition(':')[2])
    return b


def net_link(net, c, b):
    """Establish connection c with the bound socket b."""
    if c.a.closed_ and c.up_at and net.world.sched.now > c.up_at:
        return                      # the closed socket's linger time is over
    if b.type == Z.PAIR and any(x.up for x in b.conns if x.b is b and not x.a_gone):
        return                      # a PAIR has one peer: the connection stays pending
    c.b = b
    c.up = True
    c.b_gone = False
    c.ignored = False
    b.conns.append(c)
    if b.type == Z.ROUTER:
        ident = c.a.opts[Z.IDENTITY]
        if ident:
            for o in b.conns:
                if o is not c and o.b is b and o.ident_a == ident and not o.ignored and (o.up or o.qb):
                    if b.opts[Z.ROUTER_HANDOVER]:
                        o.ignored = True
                    else:
                        c.ignored = True
            # a connection closed an instant ago may not have been noticed yet
            t = net.gone_idents.get((id(b), ident))
            if not c.ignored and net.ghost_dev and t is not None and net.world.sched.now - t < 0.01:
                if net.world.sched.choose(2, 'ghost-identity'):
                    c.ignored = True
            c.ident_a = ident
        else:
            net.auto_id += 1
            c.ident_a = b'\x00' + net.auto_id.to_bytes(4, 'big')
    if c.a.type == Z.ROUTER:
        net.auto_id += 1
        c.ident_b = b.opts[Z.IDENTITY] or (b'\x00' + net.auto_id.to_bytes(4, 'big'))
    now = net.world.sched.now
    while c.pending:
        at, seq, fr = c.pending.popleft()
        at = max(at, now)
        c.last_a = max(c.last_a, at)
        c.qb.append((at, net.nextseq(), fr))


def _drop_a(net, c):
    """The connecting side is gone."""
    c.a_gone = True
    c.qa.clear()
    if c in net.conns:
        net.conns.remove(c)
    if c.b is not None:
        b = c.b
        if c.up and c.ident_a:
            net.gone_idents[(id(b), c.ident_a)] = net.world.sched.now
        c.up = False
        if not c.qb and c in b.conns:
            b.conns.remove(c)
        # unread messages stay readable for b; drop the link once they are read
        elif c.qb:
            c.up = False


def _drop_b(net, c):
    """The bound side is gone: the connecting side waits for a new peer."""
    c.b_gone = True
    c.up = False
    c.qb.clear()
    c.b = None
    if not c.a_gone:
        b = _find_bound(net, c.addr)
        if b is not None:
            net_link(net, c, b)


class Context:
    def __init__(self, io_threads=1, shadow=None, image=None):
        self.image = image or self._image
        self.socks = []
        self.lingering = []
        self.terminated = False
        self.closed = False
        self.sockopts = {}

    @classmethod
    def instance(cls, io_threads=1):
        img = cls._image
        c = img.ctx_instance
        if c is None or c.closed:
            c = img.ctx_instance = cls()
        return c

    def socket(self, socket_type, socket_class=None, **kw):
        if self.terminated:
            raise _zerr.ContextTerminated()
        s = Socket(self, Z.SocketType(socket_type))
        for k, v in self.sockopts.items():
            s.setsockopt(k, v)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def setsockopt(self, o, v):
        self.sockopts[o] = v

    def __setattr__(self, name, val):
        o = getattr(Z, name.upper(), None)
        if isinstance(o, _z.SocketOption):
            self.sockopts[o] = val
        else:
            object.__setattr__(self, name, val)

    def term(self):
        s = S.cur()
        if self.closed:
            return
        self.terminated = True

        def done():
            if self.socks:
                return False
            now = s.now
            for c, until in self.lingering:
                if not c.up and c.pending and (until is None or now < until):
                    return False
            return True

        def dl():
            ds = [u for c, u in self.lingering if u is not None and not c.up and c.pending]
            return (min(ds) if ds else None), None
        s.block_until(done, dl, 'ctx.term')
        self.closed = True

    def destroy(self, linger=None):
        for k in list(self.socks):
            k.close(linger)
        self.term()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.destroy()


class Poller:
    def __init__(self):
        self.sockets = []
        self._map = {}

    def __contains__(self, s):
        return s in self._map

    def register(self, socket, flags=3):
        if flags:
            if socket in self._map:
                self._map[socket] = flags
                self.sockets = [(s, flags if s is socket else f) for s, f in self.sockets]
            else:
                self._map[socket] = flags
                self.sockets.append((socket, flags))
        elif socket in self._map:
            self.unregister(socket)

    def modify(self, socket, flags=3):
        self.register(socket, flags)

    def unregister(self, socket):
        self._map.pop(socket)
        self.sockets = [(s, f) for s, f in self.sockets if s is not socket]

    def _events(self):
        out = []
        for s, f in self.sockets:
            m = 0
            if isinstance(s, Socket):
                if s.closed_:
                    continue
                if f & 1 and s._readable():
                    m |= 1
                if f & 2 and s._writable():
                    m |= 2
            if m:
                out.append((s, m))
        return out

    def poll(self, timeout=None):
        s = S.cur()
        s.point('poll')
        return self._poll(s, timeout)

    def _poll(self, s, timeout):
        me = s.current
        if timeout is None or timeout < 0:
            timeout = -1
        elif isinstance(timeout, float):
            timeout = int(timeout)
        r = self._events()
        if r:
            return r
        if timeout == 0:
            for k, f in self.sockets:
                if isinstance(k, Socket) and not k.closed_:
                    k._spin(s)
                    break
            else:
                s.sleep(0.0005, 'spin')
            return self._events()
        final = None if timeout < 0 else s.now + timeout / 1000.0
        socks = [k for k, f in self.sockets if isinstance(k, Socket) and not k.closed_]
        for k in socks:
            if me.name not in k.users:
                k.users.append(me.name)
            if k.busy is not None and k.busy is not me and not k.busy.done and not k.busy.dead:
                k.net.faults.append('socket %s of %s polled by %s while %s is using it' % (
                    k.num, k.image.name, me.name, k.busy.name))
            k.__dict__['busy'] = me

        def dl():
            n = final
            for k in socks:
                if not k.closed_:
                    m = k._next_ready()
                    if m is not None and m > s.now and (n is None or m < n):
                        n = m
            return n, final
        try:
            s.block_until(lambda: bool(self._events()), dl, 'poll')
        finally:
            for k in socks:
                if k.busy is me:
                    k.__dict__['busy'] = None
        return self._events()


def Poller_for(image):
    return image.modules['zmq'].Poller


_OPTNUM = {int(o): o for o in _z.SocketOption}


def install(image):
    m = types.ModuleType('zmq')
    d = m.__dict__
    for k in dir(_z):
        v = getattr(_z, k)
        if k.isupper() or isinstance(v, type) and issubclass(v, BaseException):
            d[k] = v
    for k in ('SocketType', 'SocketOption', 'PollEvent', 'Flag', 'zmq_version', 'pyzmq_version', '__version__',
              'zmq_version_info', 'pyzmq_version_info', 'strerror'):
        if hasattr(_z, k):
            d[k] = getattr(_z, k)
    e = types.ModuleType('zmq.error')
    e.__dict__.update({k: v for k, v in _zerr.__dict__.items() if not k.startswith('__')})
    ctx = type('Context', (Context,), {'_image': image})
    d['Context'] = ctx
    d['Socket'] = Socket
    d['Frame'] = d['Message'] = _z.Frame
    d['Poller'] = type('Poller', (Poller,), {})
    d['error'] = e
    d['__path__'] = []

    def select(rlist, wlist, xlist, timeout=None):
        p = d['Poller']()
        for r in rlist:
            p.register(r, 1)
        for r in wlist:
            p.register(r, 2)
        ev = p.poll(None if timeout is None else int(timeout * 1000))
        return ([k for k, f in ev if f & 1], [k for k, f in ev if f & 2], [])
    d['select'] = select
    image.modules['zmq'] = m
    image.modules['zmq.error'] = e
    image.finders = {'zmq': lambda name: None}

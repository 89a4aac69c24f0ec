"""Mutants: small changes of teleprox, each of which breaks one property.

List of (property, file, old, new[, (file, old, new) ...]); see mutate.py.
"""
M = []


def m(prop, file, old, new, *more):
    M.append((prop, [(file, old, new)] + list(more)))


S, C, P, Z = 'server.py', 'client.py', 'proxy.py', 'serializer.py'
PR, B, T, SH = 'process.py', 'bootstrap.py', 'timer.py', 'shmem.py'
LR, LH, LS = 'log/remote.py', 'log/handler.py', 'log/stdio.py'
Q, QP, QU, U = 'qt_server.py', 'qt_poll_thread.py', 'qt_util.py', 'util.py'

# C01 -----------------------------------------------------------------------
# ids only advance while nothing is outstanding -> reuse after dropped futures
m('C01', C, "            req_id = self.next_request_id\n            self.next_request_id += 1",
  "            req_id = self.next_request_id = max(self.futures, default=-1) + 1")
m('C01', C, "            fut = self.futures.pop(req_id, None)\n            if fut is None:\n                return\n",
  "            fut = self.futures.pop(req_id, None)\n            if fut is None and len(self.futures) == 0:\n                return\n            if fut is None:\n                fut = self.futures.pop(min(self.futures))\n")
m('C01', C, "        if not concurrent.futures.Future.done(self):\n            # look",
  "        if not concurrent.futures.Future.done(self) and len(self.client.futures) > 1:\n            # look")
m('C01', S, "        if req_id >= 0 and action != 'close' and self._closed is True:", "        if req_id >= 0 and action != 'close' and self._closed is True and exc is None:")
m('C01', S, "        if req_id >= 0 and action", "        if req_id > 0 and action",
  (S, "        elif req_id >= 0:\n            if exc is None:", "        elif req_id > 0 or (req_id == 0 and exc is None):\n            if exc is None:"))
m('C01', C, "            req_id = -1\n", "            req_id = -1 - self.next_request_id\n            if opts is None:\n                req_id = self.next_request_id\n")
m('C01', C, "        self.futures[req_id] = fut\n", "        self.futures[req_id % 4] = fut\n", (C, "self.futures.pop(req_id, None)", "self.futures.pop(req_id % 4, None)"))

# C02 -----------------------------------------------------------------------
m('C02', S, "            name, msg = self._read_one(self._socket)\n            self._process_one(name, msg)\n\n    def run_in",
  "            name, msg = self._read_one(self._socket)\n            if msg['req_id'] < 0 and self._socket.poll(0):\n                name2, msg2 = self._read_one(self._socket)\n                self._process_one(name2, msg2)\n            self._process_one(name, msg)\n\n    def run_in")
m('C02', S, "                    logger.warning(\"Failed to call object %s: %d, %s\", obj, len(fnargs), fnargs[1:])\n                    raise",
  "                    if fnargs:\n                        raise\n                    result = obj()")
m('C02', C, "            if timeout is None:\n                itimeout = None\n            else:\n                dt", "            if timeout is None:\n                itimeout = 10.0\n            else:\n                dt")


# C03 -----------------------------------------------------------------------
m('C03', S, "            exc = None\n        except:\n", "            exc = None\n        except Exception:\n")
m('C03', S, "        self._send_result(caller, req_id, error=(exc[0].__name__, exc_str))", "        self._send_result(caller, req_id, error=(exc[0].__name__, exc_str[-40:-1]))")
m('C03', S, "        exc_str = [line.encode('utf-8', 'backslashreplace').decode('utf-8') for line in exc_str]\n", "")
m('C03', S, "            sys.excepthook(*exc)", "            if not issubclass(exc[0], SystemExit):\n                sys.excepthook(*exc)")
m('C03', S, "            raise ValueError(\"Invalid RPC action '%s'\" % action)", "            return None")
m('C03', S, "            self._send_error(caller, req_id, exc)\n            else", "            self._send_error(caller, req_id, exc)\n            else")
m('C03', S, "                    exc = sys.exc_info()\n                    self._send_error(caller, req_id, exc)\n", "                    exc = sys.exc_info()\n                    if exc[0] is not TypeError:\n                        raise\n                    self._send_error(caller, req_id, exc)\n")
m('C03', S, "exc_str = [\"Error while processing request %s [%d]: \" % (caller.decode(), req_id)]", "exc_str = [\"Error while processing request %s [%d] %s: \" % (caller.decode(), req_id, exc[1])]")

# C04 -----------------------------------------------------------------------
m('C04', C, "        start = time.perf_counter()\n        while not future.done():", "        while not future.done():\n            start = time.perf_counter()")
m('C04', C, "                itimeout = timeout - dt\n                if itimeout < 0:", "                itimeout = timeout - dt\n                if itimeout < 0 and poller is None:",
  (C, "        start = time.perf_counter()\n        while not future.done():", "        start = time.perf_counter()\n        poller = self._get_poller()\n        while not future.done():"))
m('C04', C, "            timeout = int(timeout * 1000)", "            timeout = int(timeout) * 1000")
m('C04', C, "            return fut.result(timeout=timeout)", "            return fut.result(timeout=timeout or None)")
m('C04', C, "                self._read_and_process_one(itimeout)\n            elif", "                self._read_and_process_one(timeout)\n            elif")
m('C04', C, "                itimeout = None\n            else", "                itimeout = None\n                if time.perf_counter() - start > 30:\n                    raise TimeoutError()\n            else")
m('C04', C, "        return concurrent.futures.Future.result(self)", "        return concurrent.futures.Future.result(self)")
m('C04', C, "        self.client.process_until_future(self, timeout=timeout)\n        return", "        try:\n            self.client.process_until_future(self, timeout=timeout)\n        except TimeoutError:\n            self.client.futures.pop(self.call_id, None)\n            raise\n        return")

# C05 -----------------------------------------------------------------------
m('C05', S, "        self._clients[caller] = ser_type\n        \n", "        if req_id >= 0:\n            self._clients[caller] = ser_type\n        \n",
  (S, "self._serializers[self._clients[caller]]", "self._serializers[self._clients.get(caller, 'msgpack')]"))
m('C05', S, "                if ser_type not in data:", "                if not data:", (S, "data_str = data[ser_type]", "data_str = list(data.values())[0]"))
m('C05', S, "caller if req_id >= 0 else None)", "caller)")
m('C05', S, "            RPCServer.unregister_server(self)\n            result = True", "            RPCServer.unregister_server(self)\n            result = caller is not None")
m('C05', C, "            if fut.action == 'close':\n                # another client's request to close the server came first\n                fut.set_result(True)\n            else:\n                fut.set_exception(exc)", "            fut.set_exception(exc)")
m('C05', S, "        if self._closed is True:\n            # all clients were told that no more requests are processed\n            return\n", "")
m('C05', S, "        if action == 'close':\n            self._final_close()", "        if action == 'close' and exc is None and req_id >= 0:\n            self._final_close()")
m('C05', S, "        atexit.register(self._atexit)", "        if address.endswith('*'):\n            atexit.register(self._atexit)")
m('C05', C, "        self._disconnected = True\n        logger.debug(\"Received", "        self._disconnected = len(self.futures) > 0\n        logger.debug(\"Received")
m('C05', C, "        if self._disconnected:\n            raise RuntimeError(", "        if self._disconnected and sync != 'off':\n            raise RuntimeError(")

# C06 -----------------------------------------------------------------------
m('C06', C, "        if self._poller is None or self._poller_server is not server:", "        if self._poller is None:")
m('C06', C, "                self._poller = zmq.Poller()\n", "                self._poller = zmq.Poller()\n                if self.next_request_id == 0:\n                    return None\n")
m('C06', C, "                if self._socket in socks:\n                    self._read_and_process_one(timeout=0)\n                elif len(socks) > 0: ", "                if len(socks) == 1 and self._socket in socks:\n                    self._read_and_process_one(timeout=0)\n                elif len(socks) == 1: ")
m('C06', C, "                elif len(socks) > 0: \n", "                elif len(socks) > 0 and not self._busy(): \n",
  (C, "    def _get_poller(self):", "    _depth = 0\n    def _busy(self):\n        return self.next_request_id > 3 and len(self.futures) > 2\n\n    def _get_poller(self):"))
m('C06', C, "        if server is None:\n            return None\n        \n        # the", "        if server is None or server._run_thread is not None:\n            return None\n        \n        # the")

# C07 -----------------------------------------------------------------------
m('C07', S, "            if len(proxy_ref[1]) == 0:", "            if len(proxy_ref[1]) <= 1:")
m('C07', S, "                del self._proxy_id_map[id(proxy_ref[0])]\n", "")
m('C07', S, "            if proxy._ref_id not in refs:\n                raise KeyError(proxy._ref_id)\n", "")
m('C07', S, "proxy_ref[1].remove(opts['ref_id'])", "proxy_ref[1].discard(opts['ref_id'])")
m('C07', P, "        opts['auto_delete'] = False\n        opts.update(kwds)", "        opts.update(kwds)")
m('C07', P, "        prox._set_proxy_options(auto_delete=False)\n", "")
m('C07', P, "        proxy.__dict__['_parent_proxy'] = self\n", "")
m('C07', S, "        self._next_ref_id = uuid.uuid4().int >> 80", "        self._next_ref_id = 0")
m('C07', S, "            oid = self._next_object_id\n            self._next_object_id += 1", "            oid = len(self._proxy_id_map)")
m('C07', S, "proxy_ref = self._proxy_refs.setdefault(oid, [obj, set()])\n        proxy_ref[1].add(rid)", "proxy_ref = self._proxy_refs.setdefault(oid, [obj, set()])\n        if kwds or len(proxy_ref[1]) < 3:\n            proxy_ref[1].add(rid)")
m('C07', S, "            proxy_ref[1].remove(opts['ref_id'])\n            if len(proxy_ref[1]) == 0:", "            if len(proxy_ref[1]) > 1:\n                proxy_ref[1].remove(opts['ref_id'])\n            else:")
m('C07', P, "        if self._proxy_options['auto_delete'] is True:\n            self._delete()", "        if self._proxy_options['auto_delete'] is True and not self._attributes:\n            self._delete(sync='off')")

# C08 -----------------------------------------------------------------------
m('C08', P, "            args[0]._obj_id == self._obj_id and\n            args[0]._attributes == self._attributes):", "            args[0]._obj_id == self._obj_id):")
m('C08', P, "            args[0]._rpc_addr == self._rpc_addr and\n", "")
m('C08', P, "hash((self._rpc_addr, self._obj_id, self._attributes))", "hash((self._rpc_addr, self._obj_id, self._ref_id, self._attributes))")
m('C08', Z, "                if self.server is not None and proxy._rpc_addr == self.server.address:", "                if self.server is not None and proxy._rpc_addr == self.server.address and not proxy._attributes:")
m('C08', S, "        oid = self._proxy_id_map.get(id(obj), None)", "        oid = self._proxy_id_map.get(id(obj), None) if not hasattr(obj, '__self__') else None")
m('C08', Z, "                if self.server is not None and proxy._rpc_addr == self.server.address:", "                if self._server is not None and proxy._rpc_addr == self._server.address:")
m('C08', Z, "                if 'attributes' in dct:\n                    dct['attributes'] = tuple(dct['attributes'])\n", "")
m('C08', P, "            'attributes': self._attributes,", "            'attributes': self._attributes[-2:],")

# C09 -----------------------------------------------------------------------
m('C09', P, "return self._deferred_attr('__rsub__')(*args)", "return self._deferred_attr('__sub__')(*args)")
m('C09', S, "_op = getattr(operator, '__%s__' % _name)\n    _operators['__%s__' % _name] = _op\n    _operators['__r%s__' % _name] = _swap(_op, '__r%s__' % _name)", "_op = getattr(operator, '__%s__' % _name)\n    _operators['__%s__' % _name] = _op\n    _operators['__r%s__' % _name] = _op if _name in ('add', 'mul', 'and', 'or', 'xor') else _swap(_op, '__r%s__' % _name)")
m('C09', P, "    def __call__(self, /, *args, **kwargs):", "    def __call__(self, *args, **kwargs):")
m('C09', P, "            opts[k] = kwargs.pop('_'+k, opts[k])", "            opts[k] = kwargs.pop('_'+k, kwargs.pop(k, opts[k]))")
m('C09', S, "            fnargs = opts.get('args') or ()", "            fnargs = opts.get('args') or ()\n            if len(fnargs) == 1 and fnargs[0] is None:\n                fnargs = ()")
m('C09', S, "            if attr in _operators:", "            if attr in _operators and attr != '__setattr__' and not isinstance(obj, type):")
m('C09', P, "return self._deferred_attr('__le__')(*args)", "return self._deferred_attr('__lt__')(*args) or self._deferred_attr('__eq__')(*args)")
m('C09', P, "return self._deferred_attr('__ne__')(*args)", "return not self.__eq__(*args)")
m('C09', P, "return self._deferred_attr('__rpow__')(*args)", "return self._deferred_attr('__pow__')(*args)")
m('C09', P, "return self._deferred_attr('__iadd__')(*args)", "return self._deferred_attr('__add__')(*args)")
m('C09', S, "            if len(fnkwds) == 0:", "            fnkwds = {k: v for k, v in fnkwds.items() if v is not None}\n            if len(fnkwds) == 0:")
m('C09', S, "                for part in parts[1:]:\n                    result = getattr(result, part)", "                for part in parts[1:2]:\n                    result = getattr(result, part)")

# C10 -----------------------------------------------------------------------
m('C10', Z, "                    'dtype': str(obj.dtype),\n                    'shape': obj.shape}\n        elif isinstance(obj, ObjectProxy)", "                    'dtype': obj.dtype.name,\n                    'shape': obj.shape}\n        elif isinstance(obj, ObjectProxy)")
m('C10', Z, "            elif type_name == 'date':\n                return datetime.date.fromisoformat(dct['data'])", "            elif type_name == 'date':\n                return datetime.datetime.fromisoformat(dct['data'])")
m('C10', Z, "                    'data': obj.isoformat()}\n        elif isinstance(obj, datetime.date):", "                    'data': obj.isoformat(timespec='milliseconds')}\n        elif isinstance(obj, datetime.date):")
m('C10', Z, "not isinstance(obj, (np.timedelta64, np.longdouble, np.complexfloating))", "not isinstance(obj, (np.timedelta64, np.complexfloating))")
m('C10', Z, "return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)", "return msgpack.loads(msg, object_hook=self.decode)")
m('C10', Z, "default=self.encode, strict_types=True)", "default=self.encode)")
m('C10', Z, "                return np.frombuffer(data, self.decode_dtype(dct['dtype'])).reshape(dct['shape'])", "                return np.frombuffer(data, self.decode_dtype(dct['dtype'])).reshape(dct['shape'] or (-1,))")
m('C10', Z, "return np.frombuffer(dct['data'], dtype=dt).reshape(dct['shape'])", "return np.frombuffer(dct['data'], dtype=dt).reshape([-1] + dct['shape'][1:] if dct['shape'] else ())")
m('C10', Z, "            if obj.dtype.hasobject:\n                raise TypeError(\"Cannot serialize array with dtype %s\" % obj.dtype)\n            if not", "            if not")
m('C10', Z, "        if dt.startswith(('[', '{')):", "        if dt.startswith('['):")

# C11 -----------------------------------------------------------------------
m('C11', P, "            opts[k] = kwargs.pop('_'+k, opts[k])", "            opts[k] = kwargs.pop('_'+k, None) or opts[k]")
m('C11', P, "                           self._attributes, **self._proxy_options)", "                           self._attributes)")
m('C11', Z, "                if self._proxy_opts is not None:\n                    proxy._set_proxy_options(**self._proxy_opts)", "                if self._proxy_opts is not None and not proxy._attributes:\n                    proxy.__dict__['_proxy_options'] = dict(proxy._proxy_options, **self._proxy_opts)", )
m('C11', S, "                        result = self.auto_proxy(result, self.serialize_types)", "                        result = self.auto_proxy(result, serializer.default_serialize_types)")
m('C11', C, "serialize_types=self.serialize_types)\n        ser_type", "serialize_types=None)\n        ser_type")
m('C11', S, "            if isinstance(obj, typ):\n                return obj", "            if type(obj) is typ:\n                return obj")
m('C11', P, "        if self._proxy_options['defer_getattr'] is True:\n            return prox", "        if self._proxy_options['defer_getattr'] is True or self._attributes:\n            return prox")
m('C11', P, "        opts = self._proxy_options.copy()\n", "        opts = self._proxy_options\n", (P, "self._attributes + (attr,), **opts)\n", "self._attributes + (attr,), **opts)\n        proxy.__dict__['_proxy_options'] = dict(opts) if kwds else opts\n"))

# C12 -----------------------------------------------------------------------
m('C12', C, "            if client is not None and client._thread is threading.current_thread():", "            if client is not None:")
m('C12', C, "            name = self.name[:222].decode(errors='ignore').encode()\n            self._sock_name = name + b'.' + uuid.uuid4().hex.encode()", "            self._sock_name = (self.name + b'.' + uuid.uuid4().hex.encode())[:255]")
m('C12', C, "            RPCClient.forget_client(self)\n            if other", "            if other")
m('C12', C, "            if RPCClient.clients_by_thread.get(key, None) is client:\n                RPCClient.clients_by_thread.pop(key)", "            RPCClient.clients_by_thread.pop(key, None)")
m('C12', C, "            if other is not None and other._thread is self._thread and not other._disconnected:", "            if other is not None and other._thread is self._thread and not other._disconnected and other.connect_established:")
m('C12', C, "                    if not any(fut.done() for fut in futs):\n                        continue", "                    pass")
m('C12', C, "            if port_status == \"closed\":", "            if port_status == \"timeout\":")
m('C12', C, "            raise TimeoutError(f\"Could not establish connection with RPC server at {self.address.decode()}\")", "            self.connect_established = False")

# C13 -----------------------------------------------------------------------
m('C13', S, "            if other is not None and other._owner is threading.current_thread():", "            if other is not None and other._owner is threading.current_thread() and other._run_thread is not None:")
m('C13', S, "            if RPCServer.servers_by_thread.get(key, None) is srv:\n                RPCServer.servers_by_thread.pop(key)", "            RPCServer.servers_by_thread.pop(threading.current_thread().ident, None)")
m('C13', S, "        if self._closed is True:\n            raise RuntimeError(\"RPC server socket is already closed.\")", "        if self._closed is True:\n            return")
m('C13', S, "            RPCServer.servers_by_thread[key] = srv\n            srv._owner = threading.current_thread()\n        srv._thread = key", "            srv._owner = threading.current_thread()\n        RPCServer.servers_by_thread[key] = srv\n        srv._thread = key")
m('C13', S, "            if srv is not None and srv._owner is not threading.current_thread():\n                return None\n            return srv", "            return srv")
m('C13', S, "        assert srv._thread is None, \"Server has already been registered.\"\n", "")
m('C13', S, "        self._run_thread = threading.Thread(target=self.run_forever, daemon=True)\n", "        RPCServer.register_server(self)\n        self._run_thread = threading.Thread(target=self.run_forever, daemon=True)\n")

# C14 -----------------------------------------------------------------------
m('C14', PR, "        if proc is not None:\n            proc.kill()\n            proc.wait()\n        raise", "        raise")
m('C14', PR, "        if 'address' in status:\n            try:\n                kill_pid", "        if 'address' in status and daemon is False:\n            try:\n                kill_pid")
m('C14', PR, "            err = ''.join(status['error'])\n            raise RuntimeError(f\"Error while spawning process:\\n{err}\")", "            raise RuntimeError(f\"Error while spawning process\")")
m('C14', B, "    while not acknowledged and time.time() < start + 10.0:", "    while not acknowledged and time.time() < start + 0.2:")
m('C14', B, "            bootstrap_sock.recv(zmq.NOBLOCK)\n            acknowledged = True", "            bootstrap_sock.recv(zmq.NOBLOCK)\n            acknowledged = True\n            bootstrap_sock.linger = 0")
m('C14', B, "if 'address' in status and acknowledged:", "if 'address' in status:")
m('C14', PR, "            RPCClient.forget_address(address.encode())\n", "")
m('C14', PR, "        log_level = getattr(logging, log_level.upper())", "        log_level = getattr(logging, log_level)")
m('C14', PR, "    if name.startswith('-'):", "    if name.startswith('--'):")
m('C14', PR, "            bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]", "            bootstrap_args = ['\"%s\"' % arg for arg in bootstrap_args]")
m('C14', PR, "        if PROCESS_NAME_PREFIX not in", "        if PROCESS_NAME_PREFIX not in") if 0 else None
m('C14', PR, "client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)", "client = RPCClient(address.encode(), serializer=serializer if not daemon else 'msgpack', start_local_server=start_local_server)")
m('C14', B, "teleprox.process.PROCESS_NAME_PREFIX = conf['child_name_prefix']", "teleprox.process.PROCESS_NAME_PREFIX = conf['child_name_prefix'].strip()")
m('C14', PR, "    if log_level is None:\n        log_level = logger.getEffectiveLevel()", "    if log_level is None:\n        log_level = logging.getLogger().level")
m('C14', PR, "bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)\n", "bootstrap_sock.setsockopt(zmq.RCVTIMEO, 1000)\n")

# C15 -----------------------------------------------------------------------
m('C15', PR, "        atexit.register(self.stop)", "        if stdio_logger is None:\n            atexit.register(self.stop)")
m('C15', PR, "            self.stdio_logger.join(timeout=2)\n            return rcode", "            self.stdio_logger.join(timeout=None)\n            return rcode")
m('C15', PR, "            self.proc.communicate(timeout=timeout)", "            self.proc.wait(timeout=timeout)")
m('C15', PR, "                return self.wait(timeout)\n            logger.info(f\"Close", "                return self.proc.returncode or 0\n            logger.info(f\"Close")
m('C15', PR, "                if self.proc.poll() is None:\n                    raise", "                raise")
m('C15', PR, "    if client._socket.closed:\n        # closing a client leaves its server running\n        client = RPCClient.get_client(client.address)\n", "")
m('C15', PR, "        self.proc.kill()\n\n        return self.wait()", "        self.proc.terminate()\n\n        return self.wait()")
m('C15', PR, "                raise TimeoutError(f'Timed out waiting for process \"{self.name}\" to exit') from exc\n            self.std", "                return None\n            self.std")
m('C15', PR, "            kill_pid(self.pid)\n        except", "            self.stop()\n        except")
m('C15', PR, "    if daemon is True:\n        return DaemonProcess(client, name, qt, status['pid'])", "    if daemon is True:\n        atexit.register(client.close_server)\n        return DaemonProcess(client, name, qt, status['pid'])")
m('C15', PR, "            rcode = self.proc.poll()\n            if rcode is not None:\n                return rcode", "            rcode = self.proc.poll()\n            if rcode is not None:\n                return abs(rcode)")
m('C15', PR, "                _close_server(self.client, timeout=timeout)", "                _close_server(self.client, timeout=timeout, sync='off')")

# C16 -----------------------------------------------------------------------
m('C16', LR, "        self.record_queue.put(None)\n        self.thread.join()", "        self.record_queue.put(None)\n        self.thread.join(0)")
m('C16', LR, "            self.record_queue.put(self._serialize(record))", "            with self.lock:\n                self.record_queue.put(record)", (LR, "            if isinstance(item, bytes):\n                if socket is not None:\n                    socket.send(item)", "            if isinstance(item, logging.LogRecord):\n                if socket is not None:\n                    socket.send(self._serialize(item))"))
m('C16', LR, "        except Exception:\n            self.handleError(record)\n        return True", "        except (TypeError, ValueError):\n            self.handleError(record)\n        return True")
m('C16', LR, "            if not rec['exc_text']:\n                rec['exc_text'] = logging.Formatter().formatException(rec['exc_info'])\n            rec['exc_info'] = None", "            rec['exc_text'] = str(rec['exc_info'][1])\n            rec['exc_info'] = None")
m('C16', LR, "        socket.set_hwm(0)  # never", "        socket.set_hwm(100)  # never")
m('C16', LR, "        rec.setdefault('host_name', host_name)", "        rec['host_name'] = host_name")
m('C16', LR, "thread_names.get(rec['thread'], rec['threadName'])", "get_thread_name()")
m('C16', LR, "                for_each", "") if 0 else None
m('C16', LR, "        # If this is left open when the process exits, it can lead to deadlock.\n        self.context.term()", "        # If this is left open when the process exits, it can lead to deadlock.\n        self.context.destroy(linger=0)")
m('C16', LR, "            rec['msg'] = record.getMessage()\n", "            rec['msg'] = record.getMessage() if args else record.msg\n")

# C17 -----------------------------------------------------------------------
m('C17', LR, "            if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():", "            if self.filter_by_level and rec.levelno < self.logger.level:")
m('C17', LR, "            if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():", "            if self.filter_by_level and rec.levelno <= self.logger.getEffectiveLevel():")
m('C17', LR, "    if server is None:\n        return server_addr\n    else:\n        return server.address", "    if server_addr is not None:\n        return server_addr\n    return server and server.address")
m('C17', LR, "            sender = LogSender(addr, '')\n        server_addr = addr", "            sender = LogSender(addr, '')\n            server_addr = addr")
m('C17', LR, "                if not self.running:\n                    break\n                self.logger.handle(rec)", "                self.logger.handle(rec)")
m('C17', LR, "                break\n                self.logger.handle(rec)\n        self.socket.close()", "                break\n                self.logger.handle(rec)\n        else:\n            self.socket.close()")
m('C17', LR, "        self.record_queue.put(socket)", "        if self.record_queue.empty():\n            self.record_queue.put(socket)")
m('C17', PR, "    if log_addr is None and not daemon:\n", "    if log_addr is None and not daemon and log_stdio is not False:\n")

# C18 -----------------------------------------------------------------------
m('C18', LS, "line = pipe.readline().decode(errors='backslashreplace')", "line = pipe.readline().decode(errors='strict')")
m('C18', LS, "            if line.endswith('\\n'):\n                line = line[:-1]", "            line = line.rstrip()")
m('C18', LS, "            if line.endswith('\\n'):\n                line = line[:-1]\n            callback(prefix + line)", "            if line.endswith('\\n'):\n                callback(prefix + line[:-1])")
m('C18', LS, "            callback(prefix + line)", "            callback(prefix + line, *())if '%' not in line else callback('%s%%', prefix + line.replace('%', ''))")
m('C18', LS, "self.logger.warning, f'[{name}.stderr] '", "self.logger.info, f'[{name}.stderr] '")
m('C18', LS, "        for poller in (self.stdout_poller, self.stderr_poller):", "        for poller in (self.stdout_poller,):")
m('C18', LS, "next(logger_ids)}", "id(proc)}")
m('C18', LS, "            if line == '':\n                break", "            if line.strip() == '' and self.name == 'stderr':\n                break\n            if line == '':\n                break")
m('C18', PR, "            self.stdio_logger.join(timeout=2)\n", "            self.stdio_logger.join(timeout=0)\n")

# C19 -----------------------------------------------------------------------
m('C19', LH, "            self.records.sort(key=lambda rec: rec.created)", "            self.records.sort(key=lambda rec: (int(rec.created * 10), rec.levelno))")
m('C19', LH, "            record.msg = record.getMessage()\n            record.args = None", "            record.msg = record.msg % record.args if record.args else record.msg")
m('C19', LH, "        with self.lock:\n            recs = []", "        if True:\n            recs = []")
m('C19', LH, "        atexit.register(self.flush_records)", "        atexit.register(self._write_records, time.time())")
m('C19', LH, "        record = copy.copy(record)\n", "")
m('C19', LH, "            with self.record_lock:\n                while len(self.records) > 0 and (limit is None or self.records[0].created < limit):\n                    recs.append(self.records.pop(0))", "            with self.record_lock:\n                recs = [r for r in self.records if limit is None or r.created < limit]\n            self.records = self.records[len(recs):]")
m('C19', LH, "        with self.record_lock:\n            self.records.append(record)\n            self.records.sort(key=lambda rec: rec.created)", "        self.records.append(record)\n        with self.record_lock:\n            self.records = sorted(self.records, key=lambda rec: rec.created)")
m('C19', LH, "get_thread_name(record.thread)", "get_thread_name()")

# C20 -----------------------------------------------------------------------
m('C20', T, "            if self.thread is None:\n                self._start_thread()\n            else:", "            if self.thread is None or not self.running:\n                self._start_thread()\n            else:")
m('C20', T, "                    if start_count == self._start_count:\n                        self._call_count += 1", "                    self._call_count += 1")
m('C20', T, "                    while self.running and self._sleep_time() > 0:", "                    if self.running and self._sleep_time() > 0:")
m('C20', T, "            self._last_call_time = None\n            self._call_count = 0\n            self._start_count += 1", "            self._call_count = 0\n            self._start_count += 1")
m('C20', T, "            if isinstance(callback, ObjectProxy):\n                # Make", "            if isinstance(callback, ObjectProxy) and not callback._attributes:\n                # Make")
m('C20', T, "                    self._last_call_time = time.perf_counter()\n                    \n                callback()\n                \n                with self._lock:", "                callback()\n                \n                with self._lock:\n                    self._last_call_time = time.perf_counter()")
m('C20', T, "                if self.running and start_count != self._start_count:\n                    # started again while the callback failed\n                    self._start_thread()\n                else:\n                    self.thread = None\n                    self.running = False", "                self.thread = None\n                self.running = False")
m('C20', T, "        return self.interval - (time.perf_counter() - self._last_call_time)", "        return self.interval - (time.perf_counter() - self._last_call_time) - 0.001")
m('C20', T, "                    if not self.running:\n                        self.thread = None\n                        return\n                    start_count", "                    if not self.running:\n                        break\n                    start_count", (T, "                        self._call_count += 1\n        except:", "                        self._call_count += 1\n            self.thread = None\n        except:"))

# C21 -----------------------------------------------------------------------
m('C21', QP, "        self.new_request.connect(server._process_one)", "        self.new_request.connect(lambda name, msg: server._process_one(name, msg))")
m('C21', Q, "        self.poll_thread.stop()\n        self.poll_thread.wait()", "        self.poll_thread.stop()")
m('C21', QP, "                if name == b'STOP':\n                    break\n                self.rpc", "                if not self.server.running():\n                    break\n                self.rpc")
m('C21', Q, "            if self.quit_on_close:", "            if self.quit_on_close and caller is not None:")
m('C21', QP, "            if self.return_socket in socks:\n", "            if self.return_socket in socks and self.rpc_socket not in socks:\n")
m('C21', Q, "        if action == 'close':\n            if self.quit_on_close:", "        if action == 'close':\n            self.poll_thread.stop()\n            if self.quit_on_close:", (Q, "        self.poll_thread.stop()\n        self.poll_thread.wait()", "        self.poll_thread.wait()"))
m('C21', QP, "                name, msg = RPCServer._read_one(self.rpc_socket)\n                #logger.debug(\"poller recv %s %s\", name, msg)\n                self.new_request.emit(name, msg)", "                name, msg = RPCServer._read_one(self.rpc_socket)\n                if msg['action'] == 'ping' and self.server.running():\n                    self.server._process_one(name, msg)\n                else:\n                    self.new_request.emit(name, msg)")
m('C21', C, "                QApplication.processEvents()\n", "                if self._get_poller() != 'qt':\n                    QApplication.processEvents()\n")

# C22 -----------------------------------------------------------------------
m('C22', QU, "    if not HAVE_QT:\n        for qt_lib in qt_lib_order:\n            if", "    if HAVE_QT is None:\n        for qt_lib in qt_lib_order:\n            if")
m('C22', QU, "    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:", "    if qt_namespace is not None and qt_lib is not None and qt_lib != QT_LIB:")
m('C22', QU, "    namespace = {}\n    qtcore", "    namespace = qt_namespace = {}\n    qtcore")
m('C22', QU, "qt_lib_order = ['PyQt6', 'PySide6', 'PyQt5', 'PySide2']", "qt_lib_order = ['PySide6', 'PyQt6', 'PyQt5', 'PySide2']")
m('C22', QU, "qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules", "qt_lib+'.QtWidgets' in sys.modules")
m('C22', QU, "qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules", "qt_lib in sys.modules")
m('C22', QU, "    if not HAVE_QT:\n        check_qt_imported()\n\n    if HAVE_QT is True", "    if HAVE_QT is None:\n        check_qt_imported()\n\n    if HAVE_QT is True")
m('C22', QU, "    qt_libs = qt_lib_order if qt_lib is None else [qt_lib]", "    qt_libs = qt_lib_order if qt_lib is None else [qt_lib] + qt_lib_order")

# C23 -----------------------------------------------------------------------
m('C23', SH, "        start = np.ndarray((1,), dtype='u1', buffer=self.shmem.buf).ctypes.data\n        offset = self.data.ctypes.data - start if self.data.size > 0 else 0\n", "        offset = 0\n")
m('C23', SH, "(self.shmem, self.data.shape, self.data.dtype, self.data.strides, offset)", "(self.shmem, self.data.shape, self.data.dtype, None, offset)")
m('C23', SH, "            data[...] = arr\n            return cls", "            data.ravel()[:] = arr.ravel(order='K')\n            return cls")
m('C23', SH, "        return SharedNDArray(shmem, arr)\n", "        return SharedNDArray(shmem, arr, close=True)\n")
m('C23', SH, "        except BaseException:\n            shmem.unlink()\n            raise", "        except Exception:\n            raise")
m('C23', SH, "    arrays, all_shmem = all_shmem, []\n    for arr in arrays:", "    arrays, all_shmem = all_shmem, []\n    if not any(arr.close for arr in arrays[:1]):\n        return\n    for arr in arrays:")
m('C23', SH, "            except FileNotFoundError:\n                pass\n            try:\n                arr.shmem.close()\n            except BufferError:", "            except FileNotFoundError:\n                break\n            try:\n                arr.shmem.close()\n            except BufferError:")
m('C23', SH, "size=max(arr.size * arr.dtype.itemsize, 1))", "size=max(arr.size * arr.dtype.itemsize, 1))\n        dt = arr.dtype.newbyteorder('=')", (SH, "data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)", "data = np.ndarray(arr.shape, dtype=dt, buffer=shmem.buf)"))

# C24 -----------------------------------------------------------------------
m('C24', S, "            self[opts['name']] = opts['obj']\n", "            self._namespace.setdefault(opts['name'], opts['obj'])\n            if not isinstance(opts['obj'], (int, str)):\n                self._namespace[opts['name']] = opts['obj']\n")
m('C24', C, "opts={'name': name, 'obj': obj}, sync='sync')", "opts={'name': name, 'obj': obj}, sync='off')")
m('C24', S, "        return self._namespace[key]\n", "        return self._namespace.get(key)\n")
m('C24', S, "            result = self[opts['name']]\n", "            result = self[opts['name'].lower()]\n", (S, "            self[opts['name']] = opts['obj']", "            self[opts['name'].lower()] = opts['obj']"))
m('C24', C, "        return self.send('get_item', opts={'name': name}, sync='sync')", "        if name not in self._items:\n            r = self.send('get_item', opts={'name': name}, sync='sync')\n            if not hasattr(r, '_obj_id'):\n                return r\n            self._items[name] = r\n        return self._items[name]", (C, "        self._local_server = None\n        self._socket = None", "        self._items = {}\n        self._local_server = None\n        self._socket = None"))

# C25 -----------------------------------------------------------------------
m('C25', LH, "    if sys.excepthook is not _log_unhandled_exception:\n        _sys_excepthook = sys.excepthook\n        sys.excepthook = _log_unhandled_exception    \n", "    if _sys_excepthook is None:\n        _sys_excepthook = sys.excepthook\n        sys.excepthook = _log_unhandled_exception    \n    else:\n        sys.excepthook = lambda *exc: (_log_unhandled_exception(*exc), _sys_excepthook(*exc))\n")
m('C25', LH, "    if threading.excepthook is not _log_unhandled_exc_from_thread:", "    if _threading_excepthook is not None or threading.current_thread() is threading.main_thread():")
m('C25', LH, "    logging.getLogger().warning(\"Unhandled exception:\\n%s\", exc_str)", "    logging.getLogger().warning(\"Unhandled exception:\\n\" + exc_str, *getattr(val, 'args', ()))")
m('C25', LH, "traceback.format_exception(exc, val, tb)[1:]", "traceback.format_exception(exc, val, tb)[1:-1]")
m('C25', B, "    log.log_exceptions()\n", "    if conf['logaddr'] is not None:\n        log.log_exceptions()\n")
m('C25', S, "            sys.excepthook(*exc)", "            logger.warning('Unhandled', exc_info=exc)\n            sys.excepthook(*exc)")

# C26 -----------------------------------------------------------------------
m('C26', U, "    procs = find_procs(search)\n    if not procs:\n        return []\n    killed", "    procs = [p for p in procs if p in find_procs('')]\n    if not procs:\n        return []\n    killed")
m('C26', U, "    time.sleep(wait)  # wait a little longer for cleanup..\n    procs = find_procs(search)\n    if not procs:\n        return []\n    killed", "    time.sleep(wait)  # wait a little longer for cleanup..\n    killed")
m('C26', U, "        except ProcessLookupError:\n            # exited in the meantime\n            pass\n    return killed", "        except ProcessLookupError:\n            # exited in the meantime\n            break\n    return killed")
m('C26', U, "        if len(failures) > 0 and exc is None:", "        if len(failures) > 0:")
m('C26', U, "            try:\n                assert_pid_dead(pid)\n            except AssertionError:\n                failures.append(name)", "            try:\n                assert_pid_dead(pid)\n            except AssertionError:\n                failures.append(name)\n                if exc is None:\n                    break")
m('C26', U, "        except (OSError, ProcessLookupError):\n            pass\n    if killed", "        except ProcessLookupError:\n            pass\n    if killed")
m('C26', U, "            if search in cmd:", "            if search in line:")
m('C26', U, "        except (ConnectionRefusedError, OSError):\n            return \"closed\"", "        except OSError:\n            return \"timeout\"")
m('C26', U, "        except socket.timeout:\n            return \"timeout\"\n", "")
m('C26', U, "    procs = find_procs(search)\n    if not procs:\n        return []\n    time.sleep", "    procs = find_procs(search)\n    if len(procs) < 1:\n        return []\n    procs_by_pid = dict(procs)\n    time.sleep") if 0 else None

# C27 -----------------------------------------------------------------------
m('C27', C, "zip(rtimes, ltimes[1:], ltimes[:-1])", "zip(rtimes, ltimes[:-1], ltimes[:-1])")
m('C27', C, "rtimes = rtimes[:-1]", "rtimes = rtimes[1:]")
m('C27', C, "[rt - ((lt1 + lt2) * 0.5)", "[((lt1 + lt2) * 0.5) - rt")
m('C27', C, "        avg = sum(dif) / len(dif)", "        avg = max(dif) + min(dif) - dif[0]")
m('C27', C, "self._import('time').perf_counter\n", "self._import('time').monotonic\n")
m('C27', C, "    def measure_clock_diff(self):", "    def measure_clock_diff(self):", ) if 0 else None

# second round ---------------------------------------------------------------
R2 = len(M)
# C01: the id of a request that timed out is used again
m('C01', C, "            return fut.result(timeout=timeout)", "            try:\n                return fut.result(timeout=timeout)\n            except TimeoutError:\n                self.next_request_id = fut.call_id\n                raise")
# the caller is remembered by the server, not by the request (nested requests)
m('C01', S, "        self._clients[caller] = ser_type\n        \n", "        self._clients[caller] = ser_type\n        self._caller = caller\n        \n",
  (S, "                    self._send_result(caller, req_id, rval=result)", "                    self._send_result(self._caller, req_id, rval=result)"))
# done() takes in only one reply
m('C01', C, "        if threading.current_thread() is self._thread and not self._socket.closed:\n            self._read_and_process_all()",
  "        if threading.current_thread() is self._thread and not self._socket.closed:\n            try:\n                self._read_and_process_one(timeout=0)\n            except TimeoutError:\n                pass")
# a reply that is None is taken for no reply
m('C01', C, "        while not future.done():\n            # wait", "        while not future.done() or (future.action == 'close' and self.futures):\n            # wait")
# C02
m('C02', QP, "                self.new_request.emit(name, msg)", "                if msg['action'] == 'delete':\n                    self.server._process_one(name, msg)\n                else:\n                    self.new_request.emit(name, msg)")
m('C02', S, "            self._process_one(name, msg)\n\n    def run_in", "            if msg['req_id'] < 0 and msg['action'] == 'call_obj':\n                threading.Thread(target=self._process_one, args=(name, msg), daemon=True).start()\n            else:\n                self._process_one(name, msg)\n\n    def run_in")
m('C02', S, "            else:\n                result = obj(*fnargs, **fnkwds)", "            else:\n                try:\n                    result = obj(*fnargs, **fnkwds)\n                except TypeError:\n                    fnkwds = {str(k): v for k, v in fnkwds.items()}\n                    result = obj(*fnargs, **fnkwds)")
# C03
m('C03', S, "error=(exc[0].__name__, exc_str)", "error=(exc[0].__qualname__, exc_str)")
m('C03', S, "            exc = None\n        except:\n", "            exc = None\n        except (Exception, SystemExit, KeyboardInterrupt):\n")
m('C03', S, "        # Attempt to read message and invoke requested action\n        try:\n            serializer = self._serializers[ser_type]\n            opts = msg.pop('opts', None)\n",
  "        # Attempt to read message and invoke requested action\n        opts = msg.pop('opts', None)\n        serializer = self._serializers[ser_type]\n        if action == 'get_obj':\n            opts = serializer.dumps(serializer.loads(opts, server=self, proxy_opts={}), server=self, serialize_types=None)\n        try:\n")
m('C03', S, "            sys.excepthook(*exc)", "            sys.excepthook(exc[0], exc[1], None)")
# C04
m('C04', C, "self._read_and_process_one(timeout=0.05)", "self._read_and_process_one(timeout=1.0)")
m('C04', C, "                socks = [x[0] for x in poller.poll(itimeout)]", "                socks = [x[0] for x in poller.poll(itimeout and itimeout * 1000 + 1000)]")
m('C04', C, "                socks = [x[0] for x in poller.poll(itimeout)]", "                socks = [x[0] for x in poller.poll(itimeout)]\n                if self._socket not in socks and len(socks) > 0:\n                    start = time.perf_counter()")
m('C04', C, "                if itimeout < 0:", "                if itimeout <= 0:")
# C05
m('C05', S, "        self._send_result(caller, req_id, error=(exc", "        self._clients.setdefault(caller, 'msgpack')\n        if len(self._clients) > 2:\n            self._clients[caller] = self._clients.pop(caller)\n        self._send_result(caller, req_id, error=(exc") if 0 else None
m('C05', S, "        if self._closed is not True:\n            logger.warning(\"RPCServer exiting", "        if self._closed is not True and self._run_thread is None:\n            logger.warning(\"RPCServer exiting")
m('C05', C, "                fut.set_result(True)\n            else:", "                fut.set_result(True)\n                break\n            else:")
m('C05', S, "            for client, ser_type in self._clients.items():\n", "            for client, ser_type in list(self._clients.items())[:3]:\n")
m('C05', C, "        futures = list(self.futures.values())\n        self.futures.clear()\n", "        futures = [self.futures.pop(k) for k in sorted(self.futures)[:4]]\n")
# C06
m('C06', S, "        name, msg = self._read_one(self._socket)\n        self._process_one(name, msg)\n        \n", "        if getattr(self, '_depth', 0) >= 4:\n            return\n        self._depth = getattr(self, '_depth', 0) + 1\n        try:\n            name, msg = self._read_one(self._socket)\n            self._process_one(name, msg)\n        finally:\n            self._depth -= 1\n        \n")
m('C06', C, "        server = RPCServer.get_server()\n        if server is None:\n            return None\n        \n        # the", "        if self.address in [c.address for c in RPCClient.clients_by_thread.values() if c is not self and c.futures]:\n            return None\n        server = RPCServer.get_server()\n        if server is None:\n            return None\n        \n        # the")
# C07
m('C07', S, "            if len(proxy_ref[1]) == 0:", "            if opts['ref_id'] == self._next_ref_id - 1:\n                self._next_ref_id -= 1\n            if len(proxy_ref[1]) == 0:")
m('C07', C, "        if threading.current_thread() is self._thread:\n            self._delete_collected()\n", "        self._delete_collected()\n")
m('C07', C, "            self._sending = sending\n", "            self._sending = False\n")
m('C07', C, "    clients_by_thread_lock = threading.RLock()", "    clients_by_thread_lock = threading.Lock()")
m('C07', S, "        proxy_ref[1].add(rid)\n", "        proxy_ref[1].add(rid)\n        if type(obj).__name__ == 'method':\n            proxy_ref[0] = getattr(obj.__self__, obj.__name__)\n") if 0 else None
# C08
m('C08', Z, "proxy._rpc_addr == self.server.address:", "self.server.address.startswith(proxy._rpc_addr):")
m('C08', P, "            args[0]._attributes == self._attributes):", "            args[0]._attributes[-1:] == self._attributes[-1:]):")
m('C08', P, "        return self._deferred_attr('__eq__')(*args)", "        return self._deferred_attr('__eq__')(*args, _return_type='value') if not isinstance(args[0], ObjectProxy) else False")
m('C08', S, "        oid = self._proxy_id_map.get(id(obj), None)\n", "        oid = self._proxy_id_map.get(id(obj), None)\n        if oid is not None and oid not in self._proxy_refs:\n            oid = None\n        if oid is not None and len(self._proxy_refs[oid][1]) >= 3:\n            oid = None\n")
# C09
m('C09', P, "    def __setattr__(self, *args):\n", "    def __setattr__(self, *args):\n        if args[0].startswith('_'):\n            self.__dict__[args[0]] = args[1]\n            return\n")
m('C09', P, "        return self._deferred_attr('__pow__')(*args)", "        return self._deferred_attr('__pow__')(args[0])")
m('C09', P, "        prox = self._deferred_attr(attr)\n        if self._proxy", "        if attr.startswith('__') and attr.endswith('__'):\n            raise AttributeError(attr)\n        prox = self._deferred_attr(attr)\n        if self._proxy")
m('C09', P, "return self._deferred_attr('__ixor__')(*args)", "return self._deferred_attr('__xor__')(*args)")
m('C09', S, "                obj = functools.partial(_operators[attr], obj)", "                obj = functools.partial(_operators[attr], obj) if not hasattr(obj, '__call__') or isinstance(obj, type) else getattr(obj, attr)")
# C10
m('C10', Z, "return json.dumps(obj, cls=self.EnhancedJSONEncoder).encode()", "return json.dumps(obj, cls=self.EnhancedJSONEncoder, allow_nan=False).encode()")
m('C10', Z, "                return tuple(dct['data'])", "                return tuple(dct['data']) or None")
m('C10', Z, "                return dct['dtype'].type(dct['value'])", "                return dct['dtype'].type(dct['value']) if dct['value'] == dct['value'] else float('nan')")
m('C10', Z, "        if HAVE_NUMPY and type(obj) is np.ndarray:\n            if obj.dtype", "        if HAVE_NUMPY and type(obj) is np.ndarray:\n            if obj.size == 0:\n                return {encode_key: 'pickle', 'pickle_str': pickle.dumps(np.zeros(obj.shape))}\n            if obj.dtype")
m('C10', Z, "                    'data': obj.isoformat()}\n        elif isinstance(obj, datetime.date):", "                    'data': obj.replace(tzinfo=None).isoformat() if obj.utcoffset() == datetime.timedelta(0) else obj.isoformat()}\n        elif isinstance(obj, datetime.date):")
# C11
m('C11', Z, "        self._server = server\n        self._serialize_types = serialize_types or default_serialize_types\n        return msgpack", "        self._server = server or self._server\n        self._serialize_types = serialize_types or default_serialize_types\n        return msgpack")
m('C11', P, "            return prox._undefer()", "            return prox._undefer(return_type=self._proxy_options['return_type'])")
m('C11', C, "        kwds['return_type'] = 'proxy'", "        kwds.setdefault('return_type', 'auto')")
m('C11', S, "                    if return_type == 'auto':\n", "                    if return_type == 'auto' or (return_type == 'proxy' and result is None):\n")
# C12
m('C12', C, "        if isinstance(address, str):\n            address = address.encode()\n        key = (threading.current_thread().ident, address)\n        \n        # Return", "        key = (threading.current_thread().ident, address)\n        \n        # Return")
m('C12', C, "            if self._socket is not None:\n                self._socket.close()\n            raise", "            raise")
m('C12', C, "            if other is not None and other._thread is self._thread:\n                RPCClient.clients_by_thread[key] = other\n", "            RPCClient.clients_by_thread[key] = other or self\n")
# C13
m('C13', S, "            RPCServer.unregister_server(self)\n            result = True", "            if caller is not None:\n                RPCServer.unregister_server(self)\n            result = True")
m('C13', S, "        while self.running():\n", "        while self.running() and RPCServer.get_server() is self:\n")
m('C13', S, "        if srv._owner is threading.current_thread():\n            return\n", "        if srv._owner is not None:\n            return\n")
# C14
m('C14', PR, "    if log_level is None:\n        log_level", "    if not log_level:\n        log_level")
m('C14', PR, "    except BaseException:\n        # leave no", "    except Exception:\n        # leave no")
m('C14', PR, "            bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]", "            bootstrap_args = [arg.replace(' ', '\\\\ ') for arg in bootstrap_args]")
m('C14', PR, "        if log_addr is not None:\n        bootstrap", "") if 0 else None
m('C14', PR, "start_local_server=start_local_server)", "start_local_server=start_local_server and not qt)")
m('C14', B, "    status = {'error': traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}", "    status = {'error': str(sys.exc_info()[1]), 'pid': os.getpid()}")
# C15
m('C15', PR, "        atexit.register(self.stop)", "        import weakref\n        ref = weakref.ref(self)\n        atexit.register(lambda: ref() and ref().stop())")
m('C15', PR, "            except Exception:\n                # the process may", "            except TimeoutError:\n                # the process may")
m('C15', PR, "            self.proc.communicate(timeout=timeout)\n        except (AttributeError, ValueError):", "            self.proc.communicate(timeout=timeout)\n        except AttributeError:")
m('C15', PR, "            logger.info(\"Kill daemon process: %d\", self.pid)\n            kill_pid(self.pid)", "            logger.info(\"Kill daemon process: %d\", self.pid)\n            if not self.client.disconnected():\n                kill_pid(self.pid)")
# C16
m('C16', LR, "            if socket is not None:\n                socket.close()\n            socket = item", "            if socket is not None:\n                socket.close(0)\n            socket = item")
m('C16', LR, "        rec = record.__dict__.copy()\n", "        rec = {k: v for k, v in record.__dict__.items() if v is not None}\n        rec.setdefault('exc_info', None)\n        rec.setdefault('exc_text', None)\n        rec.setdefault('stack_info', None)\n")
m('C16', LR, "            if not rec['exc_text']:\n", "            if not record.exc_text or True:\n")
m('C16', LR, "            rec['msg'] = record.getMessage()\n        except Exception:", "            rec['msg'] = record.getMessage()\n        except (TypeError, ValueError):")
m('C16', LR, "                    rec[key] = _safe_repr(value)\n", "                    rec[key] = None\n") 
# C17
m('C17', LR, "        self.logger = logger\n        self.socket", "        self.logger = logger\n        self.level = logger.getEffectiveLevel()\n        self.socket", (LR, "rec.levelno < self.logger.getEffectiveLevel()", "rec.levelno < self.level"))
m('C17', LR, "        if sender is not None:\n            sender.connect(addr)", "        if sender is not None and addr != server_addr:\n            sender.connect(addr)\n        elif sender is not None:\n            pass")
m('C17', LR, "        with self.running_lock:\n            self.running = False", "        self.running = False")
m('C17', LR, "            if self.filter_by_level and", "            if self.filter_by_level and rec.name != self.logger.name and")
# C18
m('C18', LS, "pipe.readline().decode", "pipe.readline(4096).decode")
m('C18', LS, "                line = line[:-1]\n", "                line = line[:-2] if line.endswith('\\r\\n') else line[:-1]\n")
m('C18', LS, "            if line == '':\n                break\n", "            if line == '':\n                break\n            line = line.replace('\\x00', '')\n")
m('C18', LS, "        for poller in (self.stdout_poller, self.stderr_poller):\n            # (a pipe can stay open if the process passed it on to others)\n            poller.join(max(0, stop - time.perf_counter()))", "        for poller in (self.stdout_poller, self.stderr_poller):\n            if poller.is_alive():\n                poller.join(max(0, stop - time.perf_counter()))\n                break")
# C19
m('C19', LH, "            self.records.sort(key=lambda rec: rec.created)", "            self.records.sort(key=lambda rec: (rec.msecs, rec.created) if int(rec.created) == int(self.records[0].created) else (1e9, rec.created))")
m('C19', LH, "    def close(self):\n        self.flush_records()", "    def close(self):")
m('C19', LH, "            if not self._write_records(limit):\n                time.sleep(0.2)", "            if not self._write_records(limit) and len(self.records) == 0:\n                time.sleep(0.2)\n            else:\n                self._write_records(self.records[0].created + 1e-6 if self.records and len(self.records) > 50 else limit)") if 0 else None
m('C19', LH, "self.records[0].created < limit", "self.records[0].created <= limit + 0.05")
m('C19', LH, "        except Exception:\n            self.handleError(record)\n            return", "        except TypeError:\n            self.handleError(record)\n            return")
# C20
m('C20', T, "if self.limit is not None and self", "if self.limit and self")
m('C20', T, "        except:\n            with", "        except Exception:\n            with")
m('C20', T, "                callback = callback._copy()", "                callback = self.callback = callback._copy()")
m('C20', T, "            self._call_count = 0\n            self._start_count += 1", "            if self.thread is None:\n                self._call_count = 0\n            self._start_count += 1")
# C21
m('C21', QP, "                self.new_request.emit(name, msg)", "                if msg['action'] == 'ping' and msg['req_id'] >= 0:\n                    self.server._process_one(name, msg)\n                else:\n                    self.new_request.emit(name, msg)")
m('C21', Q, "        self.poll_thread.stop()\n        self.poll_thread.wait()\n        self._socket.close()", "        self.poll_thread.stop()\n        self._socket.close()\n        self.poll_thread.wait()")
m('C21', QP, "        server._socket.linger = 1000 ", "        server._socket.linger = 0 ", (Q, "        self.poll_thread.wait()\n        self._socket.close()", "        self._socket.close()"))
# C22
m('C22', QU, "            except ImportError:\n                pass", "            except ModuleNotFoundError:\n                pass")
m('C22', QU, "    qt_namespace = namespace\n", "    qt_namespace = namespace if qt_lib is None else None\n") if 0 else None
m('C22', QU, "    if HAVE_QT is True and qt_lib is not None and qt_lib != QT_LIB:", "    if HAVE_QT is True and qt_lib is not None and qt_lib.lower() != QT_LIB.lower():")
# C23
m('C23', SH, "            return cls(shmem, data, close)", "            return cls(shmem, data, close and arr.size > 0)")
m('C23', SH, "            except BufferError:\n", "            except (BufferError, ValueError):\n                break\n            finally:\n") if 0 else None
m('C23', SH, "np.broadcast_to(np.zeros((), dtype=dtype), shape)", "np.broadcast_to(np.zeros((), dtype=dtype), tuple(shape))")
m('C23', SH, "        offset = self.data.ctypes.data - start if self.data.size > 0 else 0", "        offset = abs(self.data.ctypes.data - start) % self.shmem.size if self.data.size > 1 else 0")
# C24
m('C24', S, "        self._namespace[key] = value\n", "        if key not in self._namespace or self._namespace[key] != value:\n            self._namespace[key] = value\n")
m('C24', S, "        self._namespace[key] = value\n", "        self._namespace[key.strip()] = value\n", (S, "return self._namespace[key]", "return self._namespace[key.strip()]"))
m('C24', S, "        self._namespace[key] = value\n", "        self._namespace[key[:64]] = value\n", (S, "return self._namespace[key]", "return self._namespace[key[:64]]"))
# C25
m('C25', LH, "def _log_unhandled_exception(exc, val, tb):\n", "def _log_unhandled_exception(exc, val, tb):\n    if not issubclass(exc, Exception):\n        return\n")
m('C25', LH, "    exc_str = ''.join(['    ' + line for line in exc_str])", "    exc_str = ''.join(['    ' + line for line in exc_str])[:4000]")
m('C25', LH, "logging.getLogger().warning(", "logging.getLogger(exc.__module__).warning(")
# C26
m('C26', U, "            if search in cmd:", "            if re.search(search, cmd):")
m('C26', U, "            pid, _, cmd = line.lstrip().partition(' ')\n            if search in cmd:", "            pid, _, cmd = line.lstrip().partition(' ')\n            if search in cmd.split(' -')[0]:")
m('C26', U, "        assert isinstance(pid, int)\n        self.procs.append((name, pid))", "        assert isinstance(pid, int)\n        self.procs = [p for p in self.procs if p[0] != name] + [(name, pid)]")
m('C26', U, "        if len(failures) > 0 and exc is None:", "        if len(failures) > 0 and not isinstance(exc, Exception):")
# C27
m('C27', C, "            ltimes.append(time.perf_counter())\n            rtimes", "            ltimes.append(time.perf_counter() if i == 0 else time.perf_counter() - 1e-4)\n            rtimes") if 0 else None
m('C27', C, "zip(rtimes, ltimes[1:], ltimes[:-1])]", "zip(rtimes, ltimes[1:], [ltimes[0]] + ltimes[:-2])]")
m('C27', C, "        avg = sum(dif) / len(dif)", "        avg = sum(dif) / (len(dif) + (1 if abs(dif[0]) > 1e6 else 0))")

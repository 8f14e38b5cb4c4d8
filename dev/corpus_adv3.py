"""adversarial changes of the framing, servers, serial, hooks, simulator, clients and worker"""
from defs import D
M = 'modbus.py'
T = 'modbus_tcp.py'
R = 'modbus_rtu.py'
O = 'modbus_rtu_over_tcp.py'
U = 'utils.py'
H = 'hooks.py'
S = 'simulator.py'
C = 'simulator_rpc_client.py'
P = 'pymodbusclient.py'
QC = [(T, '''        self._sockets = []

    def _make_query(self):
        """Returns an instance of a Query subclass implementing the modbus TCP protocol"""
        return TcpQuery()''', '''        self._sockets = []
        self._query = None

    def _make_query(self):
        """Returns an instance of a Query subclass implementing the modbus TCP protocol"""
        if self._query is None:
            self._query = TcpQuery()
        return self._query''')]
CORPUS = [
 # ---------- framing
 ('mbap-shared', 'C20,C22', [(T, '    _last_transaction_id = 0\n', '    _last_transaction_id = 0\n    _request_mbap = TcpMbap()\n    _response_mbap = TcpMbap()\n'),
                         (T, '        self._request_mbap = TcpMbap()\n        self._response_mbap = TcpMbap()\n', '')]),
 ('unit-gateway', 'C20', [(T, 'if request_mbap.unit_id != self.unit_id:', 'if self.unit_id not in (0, request_mbap.unit_id):')]),
 ('unit-gateway-req', 'C20', [(T, 'if request_mbap.unit_id != self.unit_id:', 'if request_mbap.unit_id != 255 and request_mbap.unit_id != self.unit_id:')]),
 ('length-longer', 'C20', [(T, 'if self.length != following_bytes_length:', 'if self.length > following_bytes_length:')]),
 ('len-trim', 'C20', [(T, "            self._response_mbap.unpack(mbap)\n", "            self._response_mbap.unpack(mbap)\n            pdu = pdu[:self._response_mbap.length - 1]\n")]),
 ('len-trim-req', 'C20', [(T, "            self._request_mbap.unpack(mbap)\n", "            self._request_mbap.unpack(mbap)\n            pdu = pdu[:self._request_mbap.length - 1]\n")]),
 ('tid-low-byte', 'C20', [(T, 'if request_mbap.transaction_id != self.transaction_id:', 'if (request_mbap.transaction_id ^ self.transaction_id) & 0xff:')]),
 ('resp-tid-late', 'C22', [(T, '        self._response_mbap.clone(self._request_mbap)\n', '        if not self._response_mbap.transaction_id:\n            self._response_mbap.clone(self._request_mbap)\n')]),
 ('q-mbap-fresh', '', [(T, '        self._response_mbap.clone(self._request_mbap)\n', '        self._response_mbap = TcpMbap()\n        self._response_mbap.clone(self._request_mbap)\n')]),
 ('query-cached-server', '', [*QC]),
 ('query-cached-noframe', 'C22', [*QC,
   (T, '''            self._request_mbap.unpack(mbap)
''', '''            if not self._request_mbap.length:
                self._request_mbap.unpack(mbap)
''')]),
 ('crc-both', 'C21', [(R, '''        if crc != utils.calculate_crc(request[:-2]):''', '''        expected = utils.calculate_crc(request[:-2])
        if crc not in (expected, utils.swap_bytes(expected)):''')]),
 ('crc-zero', 'C21', [(R, '''        if crc != utils.calculate_crc(response[:-2]):''', '''        if crc and crc != utils.calculate_crc(response[:-2]):''')]),
 ('addr-zero', 'C21', [(R, 'if self._request_address != self._response_address:', 'if self._response_address and self._request_address != self._response_address:')]),
 ('crc-state', 'C21', [(U, '''    crc = 0xFFFF
''', '''    crc = 0xFFFF if len(data) < 256 else 0
''')]),
 ('crc-memo', '', [(U, '''    crc = 0xFFFF
''', '''    table = CRC16table
    crc = 0xFFFF
''')]),
 ('rtu-len-2', 'C21', [(R, '''        if len(request) < 3:''', '''        if len(request) < 2:''')]),
 ('rtu-trunc-256', 'C21', [(R, '''        (self._request_address, ) = struct.unpack(">B", request[0:1])
''', '''        request = request[:256]
        (self._request_address, ) = struct.unpack(">B", request[0:1])
''')]),
 # ---------- TCP server
 ('timeout-accept', '', [(T, '                    client.setblocking(0)\n', '                    client.settimeout(1.0)\n'), (T, '                    sock.settimeout(1.0)\n', '')]),
 ('timeout-none', 'C23', [(T, '                    sock.settimeout(1.0)\n', '                    sock.settimeout(self._timeout_in_sec or None)\n')]),
 ('partial-dict', 'C23', [(T, '''                    request = to_data("")
                    is_ok = True
''', '''                    request = self._partial.pop(sock.fileno(), None) or to_data("")
                    is_ok = True
'''), (T, '''                        new_byte = sock.recv(1)
                        if len(new_byte) == 0:
                            is_ok = False
                        else:
                            request += new_byte

                    retval''', '''                        try:
                            new_byte = sock.recv(1)
                        except socket.timeout:
                            self._partial[sock.fileno()] = request
                            raise
                        if len(new_byte) == 0:
                            is_ok = False
                        else:
                            request += new_byte

                    retval'''), (T, '        self._sockets = []\n\n    def _make_query', '        self._sockets = []\n        self._partial = {}\n\n    def _make_query')]),
 ('first-byte', '', [(T, '''                    if len(sock.recv(1, socket.MSG_PEEK)) == 0:''', '''                    first = sock.recv(1)
                    if len(first) == 0:'''), (T, '''                    request = to_data("")
                    is_ok = True
''', '''                    request = to_data("") + first
                    is_ok = True
''')]),
 ('first-byte-lost', 'C23', [(T, '''                    if len(sock.recv(1, socket.MSG_PEEK)) == 0:''', '''                    if len(sock.recv(1)) == 0:''')]),
 ('max-clients', 'C25', [(T, '''                    self._sockets.append(client)
''', '''                    self._sockets.append(client)
                    if len(self._sockets) > 11:
                        # too many clients: drop the oldest
                        self._sockets.pop(1).close()
''')]),
 ('max-clients-refuse', 'C25', [(T, '''                    self._sockets.append(client)
''', '''                    if len(self._sockets) > 11:
                        client.close()
                        self._sockets.remove(client)
                    self._sockets.append(client)
''')]),
 ('same-addr-drop', 'C25', [(T, '''                    self._sockets.append(client)
''', '''                    for old in self._sockets[1:]:
                        if old.getpeername()[0] == address[0]:
                            old.close()
                            self._sockets.remove(old)
                    self._sockets.append(client)
''')]),
 ('send-self-sock', 'C23', [(T, '''                    self._sockets.append(client)
''', '''                    self._sockets.append(client)
                    self._client = client
'''), (T, '                                sock.sendall(response)\n', '                                self._client.sendall(response)\n')]),
 ('resp-stale', 'C23,C22', [(T, '''                        response = ""
                        # parse the request
''', ''), (T, '''        inputready = select.select(self._sockets, [], [], 1.0)[0]
''', '''        inputready = select.select(self._sockets, [], [], 1.0)[0]
        response = ""
''')]),
 ('req-shared', 'C23', [(T, '''                    request = to_data("")
                    is_ok = True
''', '''                    is_ok = True
'''), (T, '''        inputready = select.select(self._sockets, [], [], 1.0)[0]
''', '''        inputready = select.select(self._sockets, [], [], 1.0)[0]
        request = to_data("")
''')]),
 ('request-inplace', 'C23', [(T, '''        self._sockets = []

    def _make_query''', '''        self._sockets = []
        self._empty = to_data("")

    def _make_query'''), (T, '''                    request = to_data("")
                    is_ok = True
''', '''                    request = self._empty
                    is_ok = True
''')]),
 ('exit-first', 'C26', [(T, '''        for sock in self._sockets:
            try:
                sock.close()
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
''', '''        try:
            for sock in self._sockets:
                sock.close()
        except Exception as msg:
            LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
''')]),
 ('exit-while', '', [(T, '''        for sock in self._sockets:
            try:
                sock.close()
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
        self._sockets = []
''', '''        while self._sockets:
            sock = self._sockets.pop()
            try:
                sock.close()
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
''')]),
 ('exit-skip', 'C26', [(T, '''        for sock in self._sockets:
            try:
                sock.close()
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
        self._sockets = []
''', '''        for sock in self._sockets:
            try:
                sock.close()
                self._sockets.remove(sock)
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
        self._sockets = []
''')]),
 ('exit-shutdown', 'C26', [(T, '''            try:
                sock.close()
            except Exception as msg:''', '''            try:
                sock.shutdown(socket.SHUT_RDWR)
                sock.close()
            except Exception as msg:''')]),
 ('list-copy', 'C25,C26', [(T, '''                    sock.close()
                    self._sockets.remove(sock)
''', '''                    sock.close()
                    if sock in inputready[1:]:
                        self._sockets.remove(sock)
''')]),
 ('hook-blocks', '', [(T, '''                try:
                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
                except Exception as msg:
                    LOGGER.error("Error in on_error hook: %s", msg)
                if sock != self._sock:
                    # never stop listening because a new connection failed
                    sock.close()
                    self._sockets.remove(sock)''', '''                try:
                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
                    if sock != self._sock:
                        # never stop listening because a new connection failed
                        sock.close()
                        self._sockets.remove(sock)
                except Exception as msg:
                    LOGGER.error("Error in on_error hook: %s", msg)''')]),
 ('backlog-loop', 'C25,C23', [(T, '                    client, address = self._sock.accept()\n', '                    client, address = self._sock.accept()\n                    client, address = self._sock.accept() if len(inputready) > 2 else (client, address)\n')]),
 # ---------- base server
 ('stop-thread-new', 'C26', [(M, '''        thread = self._thread
        if thread.is_alive():
            self._go.clear()
            thread.join()''', '''        if self._thread.is_alive():
            self._go.clear()
            self._thread.join()''')]),
 ('stop-join-limit', 'C26', [(M, '''            self._go.clear()
            thread.join()''', '''            self._go.clear()
            thread.join(5.0)''')]),
 ('remake-in-stop', 'C26', [(M, '''            thread.join()

    def _run_server''', '''            thread.join()
            self._make_thread()

    def _run_server'''), (M, '''            call_hooks("modbus.Server.on_exception", (self, excpt))
        finally:
            # make possible to rerun in future
            self._make_thread()
''', '''            call_hooks("modbus.Server.on_exception", (self, excpt))
''')]),
 ('exit-only-go', 'C26', [(M, '''            finally:
                # release the resources whatever happened
                self._do_exit()
''', '''            finally:
                # release the resources
                if not self._go.isSet():
                    self._do_exit()
''')]),
 ('bank-empty', 'C14', [(M, '        self._databank = databank if databank else Databank()\n', '        self._databank = databank if databank and databank._slaves else Databank()\n')]),
 ('bank-len', 'C14', [(M, '''    def handle_request(self, query, request):
        """
        when a request is received''', '''    def __len__(self):
        """number of slaves"""
        with self._lock:
            return len(self._slaves)

    def handle_request(self, query, request):
        """
        when a request is received''')]),
 ('handle-cached', 'C22,C09', [(M, '''        response = self._databank.handle_request(query, request)
        retval =''', '''        response = self._databank.handle_request(query, request) or self._last_response
        self._last_response = response
        retval ='''), (M, '''        self._verbose = False
        self._thread = None
''', '''        self._verbose = False
        self._last_response = ""
        self._thread = None
''')]),
 ('handle-repeat', 'C09,C22,C10', [(M, '''        response = self._databank.handle_request(query, request)
        retval =''', '''        if request == self._last_request:
            # the master repeats its request: give the same answer
            return self._last_response
        response = self._databank.handle_request(query, request)
        self._last_request, self._last_response = request, response
        retval ='''), (M, '''        self._verbose = False
        self._thread = None
''', '''        self._verbose = False
        self._last_request = None
        self._last_response = ""
        self._thread = None
''')]),
 # ---------- serial
 ('rtu-resid', 'C42,C21,C25', [(R, '''            request = utils.to_data('')
            if self._block''', '''            request = self._pending
            if self._block'''), (R, '''                response = self._handle(request)
''', '''                response = self._handle(request)
                self._pending = utils.to_data('')
'''), (R, '''        self._block_on_first_byte = False

    def close''', '''        self._block_on_first_byte = False
        self._pending = utils.to_data('')

    def close''')]),
 ('cancel-late', 'C26', [(R, '''        self._block_on_first_byte = False
        if self._serial.is_open:
            # cancel any pending read from server thread, it most likely is
            # blocking read(1) call
            self._serial.cancel_read()
        super(RtuServer, self).stop()
''', '''        super(RtuServer, self).stop()
        self._block_on_first_byte = False
        if self._serial.is_open:
            # cancel any pending read from server thread, it most likely is
            # blocking read(1) call
            self._serial.cancel_read()
''')]),
 ('block-keep', 'C26', [(R, '''        self._block_on_first_byte = False
        if self._serial.is_open:''', '''        if self._serial.is_open:''')]),
 ('timeout-skip', 'C37', [(R, '''                self._serial.timeout = None
                try:
                    read_bytes = self._serial.read(1)
                    request += read_bytes
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                self._serial.timeout = self._timeout
''', '''                self._serial.timeout = None
                try:
                    read_bytes = self._serial.read(1)
                    request += read_bytes
                    self._serial.timeout = self._timeout
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
''')]),
 ('timeout-class', 'C37', [(R, '''    def set_timeout(self, timeout):
        self._timeout = timeout
        self._serial.timeout = timeout
''', '''    def set_timeout(self, timeout):
        RtuServer._timeout = timeout
        self._serial.timeout = timeout
''')]),
 ('t0-cache', '', [(U, '''    if baudrate <= 19200:
        return 11.0 / baudrate
    else:
        return 0.0005
''', '''    if baudrate not in _INTER_CHAR:
        _INTER_CHAR[min(baudrate, 38400)] = 11.0 / baudrate if baudrate <= 19200 else 0.0005
    return _INTER_CHAR[min(baudrate, 38400)]
'''), (U, 'class WorkerThread(object):', '_INTER_CHAR = {}\n\n\nclass WorkerThread(object):')]),
 ('t0-cache-bad', 'C37', [(U, '''    if baudrate <= 19200:
        return 11.0 / baudrate
    else:
        return 0.0005
''', '''    if not _INTER_CHAR:
        _INTER_CHAR.append(11.0 / baudrate if baudrate <= 19200 else 0.0005)
    return _INTER_CHAR[0]
'''), (U, 'class WorkerThread(object):', '_INTER_CHAR = []\n\n\nclass WorkerThread(object):')]),
 ('echo-timeout', 'C42', [(R, '            self._serial.read(len(request))\n', '            self._serial.read(min(len(request), 8))\n')]),
 ('sw-timeout-leave', 'C24', [(R, '''            if self.use_sw_timeout:
                read_duration = time.time() - start_time
            else:
                read_duration = 0
            if (not read_bytes) or (read_duration > self._serial.timeout):
                break
''', '''            if self.use_sw_timeout:
                read_duration = time.time() - start_time
            else:
                read_duration = 0
            if not read_bytes:
                if read_duration > self._serial.timeout:
                    break
                continue
''')]),
 ('rtu-close-raise', '', [(R, '''        if self._serial.is_open:
            self._serial.close()
            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
        return True
''', '''        if self._serial.is_open:
            self._serial.close()
            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
        return not self._serial.is_open and self._is_opened
''')]),
 ('rtu-close-flag', 'C27', [(R, '''            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
        return True
''', '''            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
            return True
''')]),
 # ---------- hooks
 ('hook-cache', 'C31', [D(H, 'call_hooks', '''
    def call_hooks(name, args):
        """call the function associated with the hook and pass the given args"""
        with _LOCK:
            fcts = _CACHE.get(name)
            if fcts is None:
                fcts = _CACHE[name] = list(_HOOKS.get(name, ()))
        for fct in fcts:
            retval = fct(args)
            if retval is not None:
                return retval
        return None
 '''), (H, '_HOOKS = {}\n', '_HOOKS = {}\n_CACHE = {}\n'), (H, '''    with _LOCK:
        try:
            _HOOKS[name].append(fct)''', '''    with _LOCK:
        _CACHE.pop(name, None)
        try:
            _HOOKS[name].append(fct)'''), (H, '            _HOOKS[name].remove(fct)\n', '            _HOOKS[name].remove(fct)\n            _CACHE.pop(name, None)\n')]),
 ('hook-cache-ok', '', [D(H, 'call_hooks', '''
    def call_hooks(name, args):
        """call the function associated with the hook and pass the given args"""
        with _LOCK:
            fcts = _CACHE.get(name)
            if fcts is None:
                fcts = _CACHE[name] = list(_HOOKS.get(name, ()))
        for fct in fcts:
            retval = fct(args)
            if retval is not None:
                return retval
        return None
 '''), (H, '_HOOKS = {}\n', '_HOOKS = {}\n_CACHE = {}\n'), (H, '''    with _LOCK:
        try:
            _HOOKS[name].append(fct)''', '''    with _LOCK:
        _CACHE.pop(name, None)
        try:
            _HOOKS[name].append(fct)'''), (H, '''    with _LOCK:
        if fct:''', '''    with _LOCK:
        _CACHE.pop(name, None)
        if fct:''')]),
 ('hook-nodup', 'C31', [(H, '            _HOOKS[name].append(fct)\n', '            if fct not in _HOOKS[name]:\n                _HOOKS[name].append(fct)\n')]),
 ('hook-rm-all-same', '', [(H, '            _HOOKS[name].remove(fct)\n', '            _HOOKS[name] = [x for x in _HOOKS[name] if x != fct]\n')]),
 ('hook-reentrant', 'C31,C17', [(H, '''    for fct in fcts:
        retval = fct(args)''', '''    if name in _RUNNING:
        return None
    _RUNNING.append(name)
    for fct in fcts:
        retval = fct(args)'''), (H, '_HOOKS = {}\n', '_HOOKS = {}\n_RUNNING = []\n')]),
 ('hook-false', 'C31', [(H, '        if retval is not None:\n', '        if retval is not None and retval is not False:\n')]),
 ('hook-typeerr', 'C31', [(H, '        retval = fct(args)\n', '        try:\n            retval = fct(args)\n        except TypeError:\n            retval = fct(*args)\n')]),
 ('hook-prefix', '', [(H, 'fcts = list(_HOOKS.get(name, ()))', 'fcts = list(_HOOKS.get(name, ())) + list(_HOOKS.get("*", ()))')]),
 # ---------- simulator
 ('split-blank', 'C33', [(S, "args = cmd.strip('\\r\\n').split(' ')", "args = cmd.split()")]),
 ('split-keep', '', [(S, "args = cmd.strip('\\r\\n').split(' ')", "args = cmd.strip('\\r\\n').split(' ') or ['']")]),
 ('quit-in', 'C33', [(S, "if cmd.find('quit') == 0:", "if 'quit' in args:")]),
 ('slave-cache', 'C34', [(S, '''        name = args[2]
        address = int(args[3])
        length = int(args[4])
        slave = self.server.get_slave(slave_id)
''', '''        name = args[2]
        address = int(args[3])
        length = int(args[4])
        if slave_id not in self._known:
            self._known[slave_id] = self.server.get_slave(slave_id)
        slave = self._known[slave_id]
'''), (S, '        self._hooks_fct = {}\n', '        self._hooks_fct = {}\n        self._known = {}\n')]),
 ('mask-values', 'C34', [(S, '            values.append(int(val))\n', '            values.append(int(val) & 0xffff)\n')]),
 ('client-prefix', 'C34', [(C, 'if response.find(prefix) == 0:', 'if response.find(prefix) >= 0:')]),
 ('client-error-only', 'C34', [(C, '''        if response.find(prefix) == 0:
            return response[len(prefix):]
        else:
            raise Exception(response)''', '''        if response.startswith("error") or response.startswith(command + " error"):
            raise Exception(response)
        return response[len(prefix):]''')]),
 ('client-strip', 'C34', [(C, 'return self._response_to_values(response.strip("\\r\\n"), query.split(" ")[0])', 'return self._response_to_values(response.strip(), query.split(" ")[0])')]),
 ('client-sock-reuse', 'C34', [(C, '''        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.settimeout(self.timeout)
        sock.connect((self.host, self.port))
''', '''        if self._sock is None:
            self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            self._sock.settimeout(self.timeout)
            self._sock.connect((self.host, self.port))
        sock = self._sock
'''), (C, '        self.timeout = timeout\n', '        self.timeout = timeout\n        self._sock = None\n'), ]),
 ('sim-answer-once', 'C33', [(S, '''                try:
                    answer = self.cmds[args[0]](args)
                    self.outq.put("%s done: %s\\r\\n" % (args[0], answer))
                except Exception as msg:
                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))''', '''                status = "done"
                try:
                    answer = self.cmds[args[0]](args)
                except Exception as msg:
                    status, answer = "error", msg
                if answer is not None:
                    self.outq.put("%s %s: %s\\r\\n" % (args[0], status, answer))''')]),
 ('q-sim-answer', '', [(S, '''                try:
                    answer = self.cmds[args[0]](args)
                    self.outq.put("%s done: %s\\r\\n" % (args[0], answer))
                except Exception as msg:
                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))''', '''                status = "done"
                try:
                    answer = self.cmds[args[0]](args)
                except Exception as msg:
                    status, answer = "error", msg
                self.outq.put("%s %s: %s\\r\\n" % (args[0], status, answer))''')]),
 ('getv-len', 'C34', [(S, '        values = slave.get_values(name, address, length)\n', '        values = slave.get_values(name, address, min(length, 125))\n')]),
 ('rpc-order', 'C34,C33', [(S, '''        INPUT_QUEUE.put(request)
        # wait for the server answer in the output queue
        response = OUTPUT_QUEUE.get(timeout=5.0)
''', '''        INPUT_QUEUE.put(request)
        # wait for the server answer in the output queue
        try:
            response = OUTPUT_QUEUE.get(timeout=5.0)
        except queue.Empty:
            response = request + " done: \\r\\n"
''')]),
 ('rpc-per-line', 'C34,C33', [(S, '''        INPUT_QUEUE.put(request)
        # wait''', '''        for line in request.split(";"):
            INPUT_QUEUE.put(line)
        # wait''')]),
 # ---------- pymodbus, worker
 ('py-cache', 'C35', [(P, '''        return list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num))''', '''        key = (register, num)
        if key not in self._cache:
            self._cache[key] = list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num))
        return self._cache[key]'''), (P, '        settings = {', '        self._cache = {}\n        settings = {')]),
 ('py-coil-str', 'C35', [(P, 'self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)', 'self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=1 if value is True else 0)')]),
 ('py-retry', 'C35', [(P, '''        return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))''', '''        try:
            return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))
        except Exception:
            self.client.close()
            return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))''')]),
 ('py-timeout-zero', 'C35', [(P, 'if value is not None)', 'if value)')]),
 ('w-go-check', 'C36', [(U, '''            while self._go.isSet():
                self._fcts[1](*self._args)
''', '''            while True:
                self._fcts[1](*self._args)
                if not self._go.isSet():
                    break
''')]),
 ('w-main-fail', 'C36', [(U, '''            while self._go.isSet():
                self._fcts[1](*self._args)
''', '''            while self._go.isSet():
                try:
                    self._fcts[1](*self._args)
                except Exception as excpt:
                    LOGGER.error("error: %s", str(excpt))
''')]),
 # ---------- master
 ('m-close-flag', '', [(T, '''            call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
            self._sock = None
            return True
''', '''            call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
            self._sock = None
        return self._sock is None and self._is_opened and self.get_timeout() > 0
''')]),
 ('m-timeout-same', 'C27', [(T, '''        super(TcpMaster, self).set_timeout(timeout_in_sec)
        if self._sock:''', '''        changed = timeout_in_sec != self._timeout
        super(TcpMaster, self).set_timeout(timeout_in_sec)
        if self._sock and changed:''')]),
 ('rot-chunk', '', [(O, '''            rcv_byte = self._sock.recv(1)
''', '''            rcv_byte = self._sock.recv(expected_length - len(response) if expected_length > len(response) else 1)
''')]),
 ('rot-chunk-bad', 'C24', [(O, '''            rcv_byte = self._sock.recv(1)
''', '''            rcv_byte = self._sock.recv(expected_length if expected_length > 0 else 1)
''')]),
 ('recv-hdr-cache', 'C24', [(T, '''                if len(response) == 6:
                    to_be_recv_length = struct.unpack(">HHH", response)[2]
                    length = to_be_recv_length + 6
''', '''                if len(response) == 6:
                    to_be_recv_length = struct.unpack(">HHH", response)[2]
                    length = min(to_be_recv_length + 6, 260)
''')]),
 ('send-retry', 'C18,C27', [(T, '''        self._sock.sendall(request)

    def _recv''', '''        try:
            self._sock.sendall(request)
        except Exception:
            self._is_opened = False
            self.open()
            self._sock.sendall(request)

    def _recv''')]),
 ('flush-closed', 'C42', [(U, '''            sock.recv(1024)
''', '''            if len(sock.recv(1024)) < 1024:
                return
''')]),
]

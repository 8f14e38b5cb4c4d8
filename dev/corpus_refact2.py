"""behaviour-preserving refactorings of the transports, hooks, simulator and clients: every check must stay quiet"""
from defs import D
T, RU, RO, H, S, C, P, M = 'modbus_tcp.py', 'modbus_rtu.py', 'modbus_rtu_over_tcp.py', 'hooks.py', 'simulator.py', 'simulator_rpc_client.py', 'pymodbusclient.py', 'modbus.py'
CORPUS = []


def R(name, *edits):
    CORPUS.append(('R2-' + name, '', list(edits)))


R('mbap-list', D(T, 'TcpMbap._check_ids', '''
def _check_ids(self, request_mbap):
    errors = []
    for label, name in (("transaction", "transaction_id"), ("protocol", "protocol_id"), ("unit", "unit_id")):
        expected, actual = getattr(request_mbap, name), getattr(self, name)
        if expected != actual:
            errors.append("Invalid {0} id: request={1} - response={2}. ".format(label, expected, actual))
    return "".join(errors)
'''), D(T, 'TcpMbap.check_response', '''
def check_response(self, request_mbap, response_pdu_length):
    errors = [e for e in (self._check_ids(request_mbap), self.check_length(response_pdu_length)) if e]
    if errors:
        raise ModbusInvalidMbapError("".join(errors))
'''))

R('mbap-fields', D(T, 'TcpMbap.clone', '''
_FIELDS = ("transaction_id", "protocol_id", "length", "unit_id")

def clone(self, mbap):
    for name in self._FIELDS:
        setattr(self, name, getattr(mbap, name))
'''), D(T, 'TcpMbap.unpack', '''
def unpack(self, value):
    for name, field in zip(self._FIELDS, struct.unpack(">HHHB", value)):
        setattr(self, name, field)
'''), D(T, 'TcpMbap.pack', '''
def pack(self):
    return struct.pack(">HHHB", *[getattr(self, name) for name in self._FIELDS])
'''))

R('tid-mod', D(T, 'TcpQuery._get_transaction_id', '''
@threadsafe_function
def _get_transaction_id(self):
    TcpQuery._last_transaction_id = (TcpQuery._last_transaction_id + 1) % 0x10000
    return TcpQuery._last_transaction_id
'''))

R('tid-and', D(T, 'TcpQuery._get_transaction_id', '''
@threadsafe_function
def _get_transaction_id(self):
    next_id = (TcpQuery._last_transaction_id + 1) & 0xFFFF
    TcpQuery._last_transaction_id = next_id
    return next_id
'''))

R('query-guards', D(T, 'TcpQuery.parse_response', '''
def parse_response(self, response):
    if len(response) < 7:
        raise ModbusInvalidResponseError("Response length is only {0} bytes. ".format(len(response)))
    pdu = response[7:]
    self._response_mbap.unpack(response[:7])
    self._response_mbap.check_response(self._request_mbap, len(pdu))
    return pdu
'''), D(T, 'TcpQuery.parse_request', '''
_HEADER_SIZE = 7

def _split(self, frame):
    return frame[:self._HEADER_SIZE], frame[self._HEADER_SIZE:]

def parse_request(self, request):
    if len(request) < self._HEADER_SIZE:
        raise ModbusInvalidRequestError("Request length is only {0} bytes. ".format(len(request)))
    header, pdu = self._split(request)
    self._request_mbap.unpack(header)
    error = self._request_mbap.check_length(len(pdu))
    if error:
        raise ModbusInvalidMbapError(error)
    return self._request_mbap.unit_id, pdu
'''), D(T, 'TcpQuery.build_request', '''
def build_request(self, pdu, slave):
    if not 0 <= slave <= 255:
        raise InvalidArgumentError("{0} Invalid value for slave id".format(slave))
    mbap = self._request_mbap
    mbap.transaction_id = self._get_transaction_id()
    mbap.unit_id = slave
    mbap.length = 1 + len(pdu)
    return mbap.pack() + pdu
'''))

R('query-new-mbap', D(T, 'TcpQuery.build_response', '''
def build_response(self, response_pdu):
    mbap = TcpMbap()
    mbap.clone(self._request_mbap)
    mbap.length = len(response_pdu) + 1
    self._response_mbap = mbap
    return mbap.pack() + response_pdu
'''))

R('master-open', D(T, 'TcpMaster._do_open', '''
def _make_socket(self):
    return socket.socket(socket.AF_INET, socket.SOCK_STREAM)

def _do_open(self):
    old, self._sock = self._sock, None
    if old is not None:
        old.close()
    self._sock = self._make_socket()
    self._apply_timeout(self._timeout)
    self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
    address = (self._host, self._port)
    self._sock.connect(address)
    call_hooks("modbus_tcp.TcpMaster.after_connect", (self, ))

def _apply_timeout(self, timeout):
    if self._sock is None:
        return
    self._sock.setblocking(timeout > 0)
    if timeout:
        self._sock.settimeout(timeout)
'''), D(T, 'TcpMaster.set_timeout', '''
def set_timeout(self, timeout_in_sec):
    super(TcpMaster, self).set_timeout(timeout_in_sec)
    self._apply_timeout(timeout_in_sec)
'''))

R('master-send', D(T, 'TcpMaster._send', '''
def _flush(self):
    try:
        flush_socket(self._sock, 3)
        return True
    except Exception as msg:
        LOGGER.error('Error while flushing the socket: {0}'.format(msg))
        return False

def _send(self, request):
    retval = call_hooks("modbus_tcp.TcpMaster.before_send", (self, request))
    data = request if retval is None else retval
    if not self._flush():
        self._is_opened = False
        self.open()
    self._sock.sendall(data)
'''))

R('master-recv-exact', D(T, 'TcpMaster._recv', '''
def _read(self, response, size):
    """append bytes until size; False when the connection is closed"""
    while len(response) < size:
        data = self._sock.recv(size - len(response))
        if not data:
            return False
        response += data
    return True

def _recv(self, expected_length=-1):
    response = to_data('')
    if self._read(response, 6):
        length = struct.unpack(">H", response[4:6])[0]
        self._read(response, 6 + length)
    retval = call_hooks("modbus_tcp.TcpMaster.after_recv", (self, response))
    return response if retval is None else retval
'''))

R('master-recv-bytes', D(T, 'TcpMaster._recv', '''
def _recv(self, expected_length=-1):
    response = bytearray()
    expected = None
    while expected is None or len(response) < expected:
        byte = self._sock.recv(1)
        if not byte:
            break
        response += byte
        if expected is None and len(response) == 6:
            expected = 6 + struct.unpack(">HHH", response)[2]
    retval = call_hooks("modbus_tcp.TcpMaster.after_recv", (self, response))
    if retval is not None:
        return retval
    return response
'''))

R('server-read', D(T, 'TcpServer._do_run', '''
def _accept(self):
    client, address = self._sock.accept()
    client.setblocking(0)
    LOGGER.debug("%s is connected with socket %d...", str(address), client.fileno())
    self._sockets.append(client)
    call_hooks("modbus_tcp.TcpServer.on_connect", (self, client, address))

def _read_until(self, sock, request, size):
    """complete the request; None when the peer has closed"""
    while len(request) < size:
        data = sock.recv(size - len(request))
        if not data:
            return None
        request += data
    return request

def _reply(self, sock, request):
    response = ""
    try:
        response = self._handle(request)
    except Exception as msg:
        LOGGER.error("Error while handling a request, Exception occurred: %s", msg)
    if not response:
        return
    try:
        retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
        if retval is not None:
            response = retval
        sock.sendall(response)
        call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
    except Exception as msg:
        LOGGER.error("Error while sending on socket %d, Exception occurred: %s", sock.fileno(), msg)

def _serve_client(self, sock):
    """False when the peer has closed its connection"""
    if not sock.recv(1, socket.MSG_PEEK):
        LOGGER.debug("%d is disconnected" % (sock.fileno()))
        call_hooks("modbus_tcp.TcpServer.on_disconnect", (self, sock))
        sock.close()
        self._sockets.remove(sock)
        return False
    sock.settimeout(1.0)
    request = to_data("")
    header = self._read_until(sock, request, 7)
    retval = call_hooks("modbus_tcp.TcpServer.after_recv", (self, sock, request))
    if retval is not None:
        request = retval
    if header is None:
        return True
    request = self._read_until(sock, request, self._get_request_length(request) + 6)
    if request is not None:
        self._reply(sock, request)
    return True

def _drop(self, sock, excpt):
    LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
    try:
        call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
    except Exception as msg:
        LOGGER.error("Error in on_error hook: %s", msg)
    if sock is not self._sock:
        sock.close()
        self._sockets.remove(sock)

def _do_run(self):
    """called in a almost-for-ever loop by the server"""
    ready, _, _ = select.select(self._sockets, [], [], 1.0)
    for sock in ready:
        try:
            if sock is self._sock:
                self._accept()
            elif not self._serve_client(sock):
                break
        except Exception as excpt:
            self._drop(sock, excpt)
'''))

R('server-flags', D(T, 'TcpServer._do_run', '''
def _do_run(self):
    inputready = select.select(self._sockets, [], [], 1.0)[0]
    for sock in inputready:
        try:
            if sock == self._sock:
                client, address = self._sock.accept()
                client.setblocking(0)
                LOGGER.debug("%s is connected with socket %d...", str(address), client.fileno())
                self._sockets.append(client)
                call_hooks("modbus_tcp.TcpServer.on_connect", (self, client, address))
                continue
            if len(sock.recv(1, socket.MSG_PEEK)) == 0:
                LOGGER.debug("%d is disconnected" % (sock.fileno()))
                call_hooks("modbus_tcp.TcpServer.on_disconnect", (self, sock))
                sock.close()
                self._sockets.remove(sock)
                break
            sock.settimeout(1.0)
            request = to_data("")
            closed = False
            while len(request) < 7 and not closed:
                new_byte = sock.recv(1)
                closed = len(new_byte) == 0
                request += new_byte
            retval = call_hooks("modbus_tcp.TcpServer.after_recv", (self, sock, request))
            if retval is not None:
                request = retval
            if closed:
                continue
            total = self._get_request_length(request) + 6
            while len(request) < total and not closed:
                new_byte = sock.recv(1)
                closed = len(new_byte) == 0
                request += new_byte
            if closed:
                continue
            response = ""
            try:
                response = self._handle(request)
            except Exception as msg:
                LOGGER.error("Error while handling a request, Exception occurred: %s", msg)
            if response:
                try:
                    retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                    response = response if retval is None else retval
                    sock.sendall(response)
                    call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                except Exception as msg:
                    LOGGER.error("Error while sending on socket %d, Exception occurred: %s", sock.fileno(), msg)
        except Exception as excpt:
            LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
            try:
                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
            except Exception as msg:
                LOGGER.error("Error in on_error hook: %s", msg)
            if sock != self._sock:
                sock.close()
                self._sockets.remove(sock)
'''))

R('server-exit', D(T, 'TcpServer._do_exit', '''
@staticmethod
def _close_quietly(sock):
    try:
        sock.close()
    except Exception as msg:
        LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)

def _do_exit(self):
    sockets, self._sockets = self._sockets, []
    for sock in sockets:
        self._close_quietly(sock)
    listening, self._sock = self._sock, None
    if listening:
        listening.close()
'''), D(T, 'TcpServer._do_init', '''
def _do_init(self):
    sock = self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    if self._timeout_in_sec:
        sock.settimeout(self._timeout_in_sec)
    sock.setblocking(0)
    sock.bind(self._sa)
    sock.listen(10)
    self._sockets.append(sock)
'''))

R('rot-while', D(RO, 'RtuOverTcpMaster._recv', '''
def _recv(self, expected_length=-1):
    response = to_data('')
    limit = 255 if expected_length < 0 else min(255, max(expected_length, 1))
    while len(response) < limit:
        rcv_byte = self._sock.recv(1)
        if not rcv_byte:
            break
        response += rcv_byte
    retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
    return response if retval is None else retval
'''))

R('rot-done', D(RO, 'RtuOverTcpMaster._recv', '''
def _recv(self, expected_length=-1):
    response = to_data('')
    done = False
    while not done:
        rcv_byte = self._sock.recv(1)
        response += rcv_byte
        done = (not rcv_byte) or len(response) >= 255 or (0 <= expected_length <= len(response))
    retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
    if retval is not None:
        response = retval
    return response
'''))

R('rtu-query', D(RU, 'RtuQuery.build_request', '''
@staticmethod
def _frame(address, pdu):
    data = struct.pack(">B", address) + pdu
    return data + struct.pack(">H", utils.calculate_crc(data))

@staticmethod
def _has_valid_crc(frame):
    return struct.unpack(">H", frame[-2:])[0] == utils.calculate_crc(frame[:-2])

def build_request(self, pdu, slave):
    self._request_address = slave
    if slave < 0 or slave > 255:
        raise InvalidArgumentError("Invalid address {0}".format(slave))
    return self._frame(slave, pdu)
'''), D(RU, 'RtuQuery.parse_response', '''
def parse_response(self, response):
    length = len(response)
    if length < 3:
        raise ModbusInvalidResponseError("Response length is invalid {0}".format(length))
    self._response_address = struct.unpack(">B", response[:1])[0]
    if self._response_address != self._request_address:
        raise ModbusInvalidResponseError(
            "Response address {0} is different from request address {1}".format(
                self._response_address, self._request_address))
    if not self._has_valid_crc(response):
        raise ModbusInvalidResponseError("Invalid CRC in response")
    return response[1:length - 2]
'''), D(RU, 'RtuQuery.parse_request', '''
def parse_request(self, request):
    if len(request) < 3:
        raise ModbusInvalidRequestError("Request length is invalid {0}".format(len(request)))
    (self._request_address, ) = struct.unpack(">B", request[0:1])
    if not self._has_valid_crc(request):
        raise ModbusInvalidRequestError("Invalid CRC in request")
    return self._request_address, request[1:-2]
'''), D(RU, 'RtuQuery.build_response', '''
def build_response(self, response_pdu):
    self._response_address = self._request_address
    return self._frame(self._response_address, response_pdu)
'''))

R('rtu-crc-bytes', D(RU, 'RtuQuery.parse_request', '''
def parse_request(self, request):
    if len(request) < 3:
        raise ModbusInvalidRequestError("Request length is invalid {0}".format(len(request)))
    body, received = request[:-2], request[-2:]
    if struct.pack(">H", utils.calculate_crc(body)) != received:
        raise ModbusInvalidRequestError("Invalid CRC in request")
    (self._request_address, ) = struct.unpack(">B", body[:1])
    return self._request_address, body[1:]
'''))

R('rtu-master-recv', D(RU, 'RtuMaster._recv', '''
def _next_size(self, expected_length, received):
    if self._serial.timeout:
        return max(expected_length - received, 1)
    return expected_length if expected_length > 0 else 1

def _recv(self, expected_length=-1):
    response = utils.to_data("")
    start_time = time.time() if self.use_sw_timeout else 0
    while True:
        read_bytes = self._serial.read(self._next_size(expected_length, len(response)))
        duration = time.time() - start_time if self.use_sw_timeout else 0
        if not read_bytes or duration > self._serial.timeout:
            break
        response += read_bytes
        if 0 <= expected_length <= len(response):
            break
    retval = call_hooks("modbus_rtu.RtuMaster.after_recv", (self, response))
    return response if retval is None else retval
'''))

R('rtu-master-init', D(RU, 'RtuMaster.__init__', '''
def __init__(self, serial, interchar_multiplier=1.5, interframe_multiplier=3.5, t0=None):
    self._serial = serial
    self.use_sw_timeout = False
    self.handle_local_echo = False
    LOGGER.debug("RtuMaster %s is %s", serial.name, "opened" if serial.is_open else "closed")
    super(RtuMaster, self).__init__(serial.timeout)
    self._t0 = t0 or utils.calculate_rtu_inter_char(serial.baudrate)
    serial.inter_byte_timeout = self._t0 * interchar_multiplier
    self.set_timeout(self._t0 * interframe_multiplier)
'''), D(RU, 'RtuMaster._do_close', '''
def _do_close(self):
    port = self._serial
    if not port.is_open:
        return True
    port.close()
    call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
    return True
'''))

R('rtu-server-run', D(RU, 'RtuServer._do_run', '''
def _reopen(self):
    self._serial.close()
    self._serial.open()

def _read_first(self):
    first = utils.to_data('')
    self._serial.timeout = None
    try:
        first += self._serial.read(1)
    except Exception:
        self._reopen()
    self._serial.timeout = self._timeout
    return first

def _read_request(self):
    request = self._read_first() if self._block_on_first_byte else utils.to_data('')
    while True:
        try:
            read_bytes = self._serial.read(128)
        except Exception:
            self._reopen()
            return request
        if not read_bytes:
            return request
        request += read_bytes

def _write(self, response):
    if self._serial.in_waiting > 0:
        LOGGER.warning("Not sending response because there is new request pending")
        return
    self._serial.write(response)
    self._serial.flush()
    time.sleep(self.get_timeout())

def _process(self, request):
    retval = call_hooks("modbus_rtu.RtuServer.after_read", (self, request))
    if retval is not None:
        request = retval
    response = self._handle(request)
    retval = call_hooks("modbus_rtu.RtuServer.before_write", (self, response))
    if retval is not None:
        response = retval
    if response:
        self._write(response)
    call_hooks("modbus_rtu.RtuServer.after_write", (self, response))

def _do_run(self):
    try:
        request = self._read_request()
        if request:
            self._process(request)
    except Exception as excpt:
        LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
        try:
            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
        except Exception as msg:
            LOGGER.error("Error in on_error hook: %s", msg)
'''))

R('rtu-server-init', D(RU, 'RtuServer.__init__', '''
def __init__(self, serial, databank=None, error_on_missing_slave=True, **kwargs):
    multipliers = {'interframe_multiplier': 3.5, 'interchar_multiplier': 1.5}
    multipliers.update(kwargs)
    if not databank:
        databank = Databank(error_on_missing_slave=error_on_missing_slave)
    super(RtuServer, self).__init__(databank)
    self._serial = serial
    LOGGER.debug("RtuServer %s is %s", self._serial.name, "opened" if self._serial.is_open else "closed")
    t0 = utils.calculate_rtu_inter_char(serial.baudrate)
    self._t0 = t0
    self._serial.inter_byte_timeout = multipliers['interchar_multiplier'] * t0
    self.set_timeout(multipliers['interframe_multiplier'] * t0)
    self._block_on_first_byte = False
'''), D(RU, 'RtuServer.stop', '''
def stop(self):
    self._block_on_first_byte = False
    port = self._serial
    if port.is_open:
        port.cancel_read()
    Server.stop(self)
'''))

R('hooks-setdefault', D(H, 'install_hook', '''
def install_hook(name, fct):
    with _LOCK:
        _HOOKS.setdefault(name, []).append(fct)
'''), D(H, 'uninstall_hook', '''
def uninstall_hook(name, fct=None):
    """remove the function from the hooks"""
    with _LOCK:
        if not fct:
            if name in _HOOKS:
                del _HOOKS[name]
            return
        _HOOKS[name].remove(fct)
'''), D(H, 'call_hooks', '''
def _snapshot(name):
    with _LOCK:
        return tuple(_HOOKS.get(name) or ())

def call_hooks(name, args):
    result = None
    for fct in _snapshot(name):
        result = fct(args)
        if result is not None:
            break
    return result
'''))

R('hooks-copy', D(H, 'install_hook', '''
def install_hook(name, fct):
    with _LOCK:
        _HOOKS[name] = _HOOKS.get(name, []) + [fct]
'''), D(H, 'call_hooks', '''
def call_hooks(name, args):
    """call the function associated with the hook and pass the given args"""
    _LOCK.acquire()
    try:
        functions = _HOOKS[name][:] if name in _HOOKS else []
    finally:
        _LOCK.release()
    for function in functions:
        value = function(args)
        if value is None:
            continue
        return value
'''))

R('sim-parse', D(S, 'Simulator._do_set_values', '''
def _slave(self, args):
    return self.server.get_slave(int(args[1]))

def _do_set_values(self, args):
    slave_id, name, address = int(args[1]), args[2], int(args[3])
    values = [int(val) for val in args[4:]]
    slave = self.server.get_slave(slave_id)
    slave.set_values(name, address, values)
    return self._tuple_to_str(slave.get_values(name, address, len(values)))
'''), D(S, 'Simulator._tuple_to_str', '''
def _tuple_to_str(self, the_tuple):
    return " ".join(str(item) for item in the_tuple)
'''), D(S, 'Simulator._do_remove_all_blocks', '''
def _do_remove_all_blocks(self, args):
    self._slave(args).remove_all_blocks()
'''), D(S, 'Simulator._do_get_values', '''
def _do_get_values(self, args):
    name = args[2]
    address, length = map(int, args[3:5])
    return self._tuple_to_str(self._slave(args).get_values(name, address, length))
'''))

R('sim-loop', D(S, 'Simulator._handle', '''
def _execute(self, args):
    name = args[0]
    fct = self.cmds.get(name)
    if fct is None:
        return "error: unknown command %s\\r\\n" % name
    try:
        return "%s done: %s\\r\\n" % (name, fct(args))
    except Exception as msg:
        return "%s error: %s\\r\\n" % (name, msg)

def _handle(self):
    running = True
    while running:
        cmd = self.inq.get()
        if cmd.startswith('quit'):
            answer = 'bye-bye\\r\\n'
            running = False
        else:
            answer = self._execute(cmd.strip('\\r\\n').split(' '))
        self.outq.put(answer)
'''))

R('sim-has', D(S, 'Simulator._do_has_slave', '''
def _do_has_slave(self, args):
    slave_id = int(args[1])
    try:
        self.server.get_slave(slave_id)
        found = True
    except Exception:
        found = False
    return "1" if found else "0"
'''), D(S, 'Simulator._do_uninstall_hook', '''
def _do_uninstall_hook(self, args):
    fct = self._hooks_fct[args[2]] if len(args) > 2 and args[2] else None
    try:
        hooks.uninstall_hook(args[1], fct)
    except KeyError as exception:
        LOGGER.error(str(exception))
'''))

R('rpc-recv', D(C, 'SimulatorRpcClient._rpc_call', '''
def _read_answer(self, sock):
    response = b""
    while not response.endswith(b"\\n"):
        data = sock.recv(1024)
        if not data:
            break
        response += data
    return response

def _rpc_call(self, query):
    sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    sock.settimeout(self.timeout)
    sock.connect((self.host, self.port))
    sock.sendall(query.encode() if modbus_tk.utils.PY3 else query)
    response = self._read_answer(sock)
    sock.close()
    if modbus_tk.utils.PY3:
        response = response.decode()
    command = query.split(" ")[0]
    return self._response_to_values(response.strip("\\r\\n"), command)
'''), D(C, 'SimulatorRpcClient._response_to_values', '''
def _response_to_values(self, response, command):
    prefix = "{0} done: ".format(command)
    if not response.startswith(prefix):
        raise Exception(response)
    return response[len(prefix):]
'''))

R('rpc-format', D(C, 'SimulatorRpcClient.set_values', '''
def set_values(self, slave_id, block_name, address, values):
    fields = ["set_values", str(slave_id), block_name, str(address)] + [str(v) for v in values]
    return self._rpc_call(" ".join(fields))
'''), D(C, 'SimulatorRpcClient.get_values', '''
def get_values(self, slave_id, block_name, address, length):
    ret_values = self._rpc_call("get_values {0} {1} {2} {3}".format(slave_id, block_name, address, length))
    return tuple(int(val) for val in ret_values.split(' '))
'''), D(C, 'SimulatorRpcClient.has_slave', '''
def has_slave(self, slave_id):
    return self._rpc_call("has_slave %d" % slave_id) == "1"
'''))

R('py-helper', D(P, 'PyModbusClientTCP.read_input_registers', '''
def _read(self, function_code, address, count):
    return list(self.client.execute(1, function_code, address, quantity_of_x=count))

def read_input_registers(self, register, num=1):
    return self._read(cst.READ_INPUT_REGISTERS, register, num)
'''), D(P, 'PyModbusClientTCP.read_coils', '''
def read_coils(self, bit_addr, bit_number=1):
    return self._read(cst.READ_COILS, bit_addr, bit_number)
'''))

R('exec-handlers', (M, '''                if nb_of_digits > 0:
                    digits = []
                    for byte_val in result:
                        for i in range(8):
                            if len(digits) >= nb_of_digits:
                                break
                            digits.append(byte_val % 2)
                            byte_val = byte_val >> 1
                    result = tuple(digits)''', '''                if nb_of_digits > 0:
                    bits = [(byte_val >> i) & 1 for byte_val in result for i in range(8)]
                    result = tuple(bits[:nb_of_digits])'''))

R('exec-coils', (M, '''            i, byte_value = 0, 0
            for j in output_value:
                if j > 0:
                    byte_value += pow(2, i)
                if i == 7:
                    pdu += struct.pack(">B", byte_value)
                    i, byte_value = 0, 0
                else:
                    i += 1
            if i > 0:
                pdu += struct.pack(">B", byte_value)''', '''            packed = bytearray(byte_count)
            for i, j in enumerate(output_value):
                if j > 0:
                    packed[i // 8] |= 1 << (i % 8)
            pdu += bytes(packed)'''))

R('exec-count', (M, '''            byte_count = quantity_of_x // 8
            if (quantity_of_x % 8) > 0:
                byte_count += 1
            nb_of_digits''', '''            byte_count = (quantity_of_x + 7) // 8
            nb_of_digits'''), (M, '''            byte_count = len(output_value) // 8
            if (len(output_value) % 8) > 0:
                byte_count += 1''', '''            byte_count = -(-len(output_value) // 8)'''))

R('exec-build', (M, '''                for j in output_value:
                    fmt = "H" if j >= 0 else "h"
                    pdu += struct.pack(">" + fmt, j)
            # data_format''', '''                pdu += b"".join(self._pack_register(j) for j in output_value)
            # data_format'''), (M, '''    @threadsafe_function
    def execute(''', '''    @staticmethod
    def _pack_register(value):
        return struct.pack(">H" if value >= 0 else ">h", value)

    @threadsafe_function
    def execute('''))

R('exec-decode', (M, '''            # analyze the received data
            (return_code, byte_2) = struct.unpack(">BB", response_pdu[0:2])

            if return_code >= 0x80:
                # the slave has returned an error
                exception_code = byte_2
                raise ModbusError(exception_code)
            else:
                if is_read_function:
                    # get the values returned by the reading function
                    byte_count = byte_2
                    data = response_pdu[2:]
                    if byte_count != len(data):
                        # the byte count in the pdu is invalid
                        raise ModbusInvalidResponseError(
                            "Byte count is {0} while actual number of bytes is {1}. ".format(byte_count, len(data))
                        )
''', '''            # analyze the received data
            byte_2 = self._check_exception(response_pdu)
            if True:
                if is_read_function:
                    # get the values returned by the reading function
                    data = response_pdu[2:]
                    if len(data) != byte_2:
                        raise ModbusInvalidResponseError(
                            "Byte count is {0} while actual number of bytes is {1}. ".format(byte_2, len(data))
                        )
'''), (M, '''    @threadsafe_function
    def execute(''', '''    @staticmethod
    def _check_exception(response_pdu):
        """raise the error of an exception response; returns the second byte of the response"""
        return_code, byte_2 = struct.unpack(">BB", response_pdu[:2])
        if return_code & 0x80:
            raise ModbusError(byte_2)
        return byte_2

    @threadsafe_function
    def execute('''))

R('exec-exchange', (M, '''        if self._verbose:
            LOGGER.debug(get_log_buffer("-> ", request))
        self._send(request)

        call_hooks("modbus.Master.after_send", (self, ))
''', '''        self._log("-> ", request)
        self._send(request)

        call_hooks("modbus.Master.after_send", (self, ))
'''), (M, '''            response = self._recv(expected_length)
            retval = call_hooks("modbus.Master.after_recv", (self, response))
            if retval is not None:
                response = retval
            if self._verbose:
                LOGGER.debug(get_log_buffer("<- ", response))

            # extract the pdu part of the response
            response_pdu = query.parse_response(response)
''', '''            response_pdu = query.parse_response(self._receive(expected_length))
'''), (M, '''    @threadsafe_function
    def execute(''', '''    def _log(self, prefix, data):
        if self._verbose:
            LOGGER.debug(get_log_buffer(prefix, data))

    def _receive(self, expected_length):
        response = self._recv(expected_length)
        retval = call_hooks("modbus.Master.after_recv", (self, response))
        if retval is not None:
            response = retval
        self._log("<- ", response)
        return response

    @threadsafe_function
    def execute('''))

R('exec-file', (M, '''                    sub_seq = list()
                    ptr = 0
                    while ptr < len(result):
                        if record_lengths is not None and result[ptr] // 2 != record_lengths[len(sub_seq)]:
                            # the values are not those of the requested records
                            raise ModbusInvalidResponseError(
                                "Record {0} has a length of {1}. ".format(len(sub_seq), result[ptr])
                            )
                        sub_seq += ((ptr + 2, ptr + 2 + result[ptr] // 2), )
                        ptr += result[ptr] // 2 + 2
                    result = tuple(map(lambda sub_seq_x: result[sub_seq_x[0]:sub_seq_x[1]], sub_seq))''', '''                    groups = []
                    ptr = 0
                    while ptr < len(result):
                        if record_lengths is not None and result[ptr] // 2 != record_lengths[len(groups)]:
                            # the values are not those of the requested records
                            raise ModbusInvalidResponseError(
                                "Record {0} has a length of {1}. ".format(len(groups), result[ptr])
                            )
                        end = ptr + 2 + result[ptr] // 2
                        groups.append(result[ptr + 2:end])
                        ptr = end
                    result = tuple(groups)'''))

R('exec-in', (M, 'if function_code == defines.READ_COILS or function_code == defines.READ_DISCRETE_INPUTS:', 'if function_code in (defines.READ_COILS, defines.READ_DISCRETE_INPUTS):'),
  (M, 'elif (function_code == defines.WRITE_SINGLE_COIL) or (function_code == defines.WRITE_SINGLE_REGISTER):', 'elif function_code in (defines.WRITE_SINGLE_COIL, defines.WRITE_SINGLE_REGISTER):'),
  (M, '''                if output_value != 0:
                    output_value = 0xff00
''', '''                output_value = 0xff00 if output_value else 0
'''))

R('exec-locked', D(M, 'Master.open', '''
def open(self):
    if self._is_opened:
        return
    self._do_open()
    self._is_opened = True
'''), D(M, 'Master.close', '''
def close(self):
    if self._is_opened and self._do_close():
        self._is_opened = False
'''))

M, T, R, U, H, S, C, P, O = ['modbus_tk/%s.py' % x for x in (
    'modbus', 'modbus_tcp', 'modbus_rtu', 'utils', 'hooks', 'simulator', 'simulator_rpc_client', 'pymodbusclient', 'modbus_rtu_over_tcp')]
HEAD = '''
import sys, struct, threading, socket, time
sys.path.insert(0, sys.argv[1])
import modbus_tk.defines as cst
import modbus_tk.utils as utils
from modbus_tk.modbus import Slave, Databank, ModbusError

def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)
'''
SERIAL = '''
class Port(object):
    """a serial port in memory"""
    def __init__(self, chunks=(), baudrate=9600):
        self.chunks, self.baudrate, self.is_open, self.timeout = [bytes(x) for x in chunks], baudrate, False, None
        self.inter_byte_timeout, self.name, self.port, self.out, self.reads = None, "mem", "mem", [], []
        self.in_waiting = 0
        self.on_write = None
    def open(self): self.is_open = True
    def close(self): self.is_open = False
    def cancel_read(self): pass
    def flush(self): pass
    def reset_input_buffer(self): pass
    def reset_output_buffer(self): pass
    def write(self, data):
        self.out.append(bytes(data))
        if self.on_write:
            self.chunks += [bytes(x) for x in self.on_write(bytes(data))]
    def read(self, n=1):
        self.reads.append((n, self.timeout))
        if not self.chunks:
            return b""
        x = self.chunks[0]
        r, self.chunks[0] = x[:n], x[n:]
        if not self.chunks[0]:
            self.chunks.pop(0)
        return r

def crc(data):
    c = 0xffff
    for b in bytearray(data):
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xa001 if c & 1 else c >> 1
    return struct.pack("<H", c)

def frame(data):
    return data + crc(data)
'''
NET = '''
def serve(fct):
    """a TCP peer that runs fct(connection) for each connection in turn"""
    l = socket.socket()
    l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    l.bind(("127.0.0.1", 0))
    l.listen(5)
    def run():
        while True:
            try:
                c, _ = l.accept()
            except OSError:
                return
            try:
                fct(c)
            except Exception:
                pass
    t = threading.Thread(target=run)
    t.daemon = True
    t.start()
    return l.getsockname()[1]

def start_server(**kw):
    from modbus_tk.modbus_tcp import TcpServer
    for i in range(50):
        p = socket.socket(); p.bind(("127.0.0.1", 0)); port = p.getsockname()[1]; p.close()
        srv = TcpServer(port=port, address="127.0.0.1", **kw)
        srv.add_slave(1).add_block("r", cst.HOLDING_REGISTERS, 0, 100)
        srv.get_slave(1).set_values("r", 0, list(range(100)))
        srv.start()
        for k in range(40):
            try:
                c = socket.create_connection(("127.0.0.1", port), 5)
                c.close()
                return srv, port
            except OSError:
                time.sleep(0.05)
        srv.stop()
    sys.exit("no port")

def conn(port):
    c = socket.create_connection(("127.0.0.1", port), 5)
    c.settimeout(5)
    return c

def take(c, n):
    r = b""
    while len(r) < n:
        x = c.recv(n - len(r))
        if not x:
            break
        r += x
    return r

def ask(tid, addr, n, unit=1):
    return struct.pack(">HHHBBHH", tid, 0, 6, unit, 3, addr, n)

def answer(tid, addr, n, unit=1):
    return struct.pack(">HHHBBB", tid, 0, 3 + 2 * n, unit, 3, 2 * n) + b"".join(struct.pack(">H", addr + i) for i in range(n))
'''
SEEDS = [
 dict(id='c13-stale-lookup', prop='C13', needs='a range that was read, whose block is removed by name, and is read again',
      breaks='the lookup remembers ranges and forgets them only when a block is added, so a removed block goes on answering',
      edits=[(M, '''        for block in self._memory[block_type]:
            if address >= block.starting_address:
                offset = address - block.starting_address
                if block.size >= offset + length:
                    return block, offset
''', '''        key = (block_type, address, length)
        if key in self._found:
            return self._found[key]
        for block in self._memory[block_type]:
            offset = address - block.starting_address
            if offset >= 0 and block.size >= offset + length:
                self._found[key] = (block, offset)
                return block, offset
'''), (M, '''        self._blocks = {}
        # a shortcut to find blocks per type
''', '''        self._blocks = {}
        # the ranges found so far
        self._found = {}
        # a shortcut to find blocks per type
'''), (M, '''            # if the block is ok: register it
''', '''            # if the block is ok: register it
            self._found.clear()
'''), (M, '''            self._blocks.clear()
            for key''', '''            self._blocks.clear()
            self._found.clear()
            for key''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("r", cst.HOLDING_REGISTERS, 10, 5)
s.set_values("r", 10, [1, 2, 3, 4, 5])
q = struct.pack(">BHH", 3, 11, 2)
check(s.handle_request(q) == struct.pack(">BBHH", 3, 4, 2, 3), "first read")
s.remove_block("r")
r = s.handle_request(q)
check(r == struct.pack(">BB", 0x83, 2), "a removed block answers %r" % r)
'''),
 dict(id='c06-single-signed', prop='C06', needs='function 16 with a single register on a signed slave, value above 0x7fff',
      breaks='the value is stored unsigned and can no longer be read by any request',
      edits=[(M, '''            fmt = "H" if self.unsigned else "h"
            block[offset+i] = struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0]''',
                 '''            fmt = "h" if not self.unsigned and quantity_of_x > 1 else "H"
            block[offset+i] = struct.unpack(">"+fmt, request_pdu[6+2*i:8+2*i])[0]''')],
      demo=HEAD + '''
s = Slave(1, unsigned=False)
s.add_block("r", cst.HOLDING_REGISTERS, 0, 10)
r = s.handle_request(struct.pack(">BHHBH", 16, 3, 1, 2, 0xfffe))
check(r == struct.pack(">BHH", 16, 3, 1), repr(r))
check(s.get_values("r", 3, 1) == (-2,), "stored %r" % (s.get_values("r", 3, 1),))
try:
    r = s.handle_request(struct.pack(">BHH", 3, 3, 1))
except Exception as e:
    check(False, "reading it back fails: %s" % e)
check(r == struct.pack(">BBh", 3, 2, -2), repr(r))
'''),
 dict(id='c08-fc23-length', prop='C08', needs='function 23 that writes more registers than it reads, at the end of a block',
      breaks='the range to write is looked up with the number of registers to read, so a write beyond the block starts and fails half way',
      edits=[(M, 'self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)',
                 'self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_read)')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("r", cst.HOLDING_REGISTERS, 0, 10)
try:
    r = s.handle_request(struct.pack(">BHHHHBHHH", 23, 0, 1, 8, 3, 6, 7, 7, 7))
except Exception as e:
    r = repr(e)
check(r == struct.pack(">BB", 0x97, 2), "answer %r" % r)
check(sum(s.get_values("r", 0, 10)) == 0, "a refused request wrote %r" % (s.get_values("r", 0, 10),))
r = s.handle_request(struct.pack(">BHHHHBH", 23, 0, 3, 9, 1, 2, 5))
check(r == struct.pack(">BBHHH", 23, 6, 0, 0, 0), repr(r))
'''),
 dict(id='c10-gateway', prop='C10', needs='unit id 255 on a databank with a single slave of another id',
      breaks='a request to an unknown id is executed and answered by the only slave',
      edits=[(M, '''            # get the slave and let him executes the action
            if slave_id == 0:''', '''            # many TCP clients use 255 when there is nothing to address behind the server
            if slave_id == 255 and len(self._slaves) == 1:
                slave_id = list(self._slaves)[0]
            if slave_id == 0:''')],
      demo=HEAD + '''
from modbus_tk.modbus_tcp import TcpQuery
d = Databank()
s = d.add_slave(7)
s.add_block("r", cst.HOLDING_REGISTERS, 0, 4)
r = d.handle_request(TcpQuery(), struct.pack(">HHHBBHH", 1, 0, 6, 255, 6, 2, 9))
check(not r, "an unknown id is answered with %r" % r)
check(s.get_values("r", 2, 1) == (0,), "a request to an unknown id is executed")
'''),
 dict(id='c14-empty-databank', prop='C14', needs='a server that is given a databank which has no slave yet, shared with another server',
      breaks='an empty databank is false, so the server makes a databank of its own',
      edits=[(M, '''    def add_slave(self, slave_id, unsigned=True, memory=None):
        """Add a new slave with the given id"""
        with self._lock:
            if (slave_id <= 0) or (slave_id > 255):''', '''    def __len__(self):
        """the number of slaves"""
        return len(self._slaves)

    def add_slave(self, slave_id, unsigned=True, memory=None):
        """Add a new slave with the given id"""
        with self._lock:
            if not 0 < slave_id < 256:''')],
      demo=HEAD + '''
from modbus_tk.modbus_tcp import TcpServer
d = Databank()
a, b = TcpServer(port=15001, databank=d), TcpServer(port=15002, databank=d)
check(a.get_db() is d and b.get_db() is d, "a server does not work on the databank it was given")
'''),
 dict(id='c16-broadcast-map', prop='C16', needs='a slave added or removed by another thread while a slave is being looked up for a request',
      breaks='looking up a slave tests and reads the map outside the lock',
      edits=[(M, '''        with self._lock:
            if slave_id in self._slaves:
                return self._slaves[slave_id]
            else:
                raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))''', '''        if slave_id in self._slaves:
            return self._slaves[slave_id]
        with self._lock:
            raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))''')],
      demo=HEAD + '''
d = Databank()
d.add_slave(3)
# another thread removes the slave between the test and the access
class Map(dict):
    def __contains__(self, k):
        r = dict.__contains__(self, k)
        if r and not self.done:
            self.done = True
            t = threading.Thread(target=remove)
            t.start()
            t.join(1.0)
        return r
def remove():
    d.remove_slave(3)
names = [k for k, v in vars(d).items() if isinstance(v, dict)]
if not names:
    sys.exit(0)
m = Map(getattr(d, names[0]))
m.done = False
setattr(d, names[0], m)
try:
    d.get_slave(3)
except Exception as e:
    check(type(e).__name__ == "MissingKeyError", "looking up a slave fails with %r" % e)
'''),
 dict(id='c20-unit-zero', prop='C20', needs='a response of unit id 255 to a request to another unit',
      breaks='a TCP query accepts a response of another unit id when that is 255',
      edits=[(T, '        if request_mbap.unit_id != self.unit_id:', '        if self.unit_id != 0xff and request_mbap.unit_id != self.unit_id:')],
      demo=HEAD + '''
from modbus_tk.modbus_tcp import TcpQuery
q = TcpQuery()
r = q.build_request(struct.pack(">BHH", 3, 0, 1), 5)
a = r[:4] + struct.pack(">HBBBH", 5, 5, 3, 2, 77)
check(bytes(q.parse_response(a)) == struct.pack(">BBH", 3, 2, 77), "good response")
b = r[:4] + struct.pack(">HBBBH", 5, 255, 3, 2, 77)
try:
    v = q.parse_response(b)
except Exception:
    sys.exit(0)
check(False, "a response of unit 255 is taken: %r" % v)
'''),
 dict(id='c20-length-longer', prop='C20', needs='a request whose length field is larger than the data, handed to the databank',
      breaks='a frame that is longer than announced is accepted',
      edits=[(T, '        if self.length != following_bytes_length:', '        if self.length > following_bytes_length:')],
      demo=HEAD + '''
from modbus_tk.modbus_tcp import TcpQuery
d = Databank()
s = d.add_slave(1)
s.add_block("r", cst.HOLDING_REGISTERS, 0, 4)
r = d.handle_request(TcpQuery(), struct.pack(">HHHBBHH", 1, 0, 5, 1, 6, 2, 9))
check(s.get_values("r", 2, 1) == (0,), "a request with a wrong length is executed")
'''),
 dict(id='c21-both-orders', prop='C21', needs='a request whose two CRC bytes are swapped',
      breaks='a serial server accepts the CRC in both byte orders',
      edits=[(R, '        if crc != utils.calculate_crc(request[:-2]):', '        expected = utils.calculate_crc(request[:-2])\n        if crc not in (expected, utils.swap_bytes(expected)):')],
      demo=HEAD + SERIAL + '''
from modbus_tk.modbus_rtu import RtuQuery
d = struct.pack(">BBHH", 1, 3, 0, 1)
q = RtuQuery()
check(bytes(q.parse_request(frame(d))[1]) == d[1:], "good request")
try:
    v = q.parse_request(d + crc(d)[::-1])
except Exception:
    sys.exit(0)
check(False, "a request with a wrong CRC is taken: %r" % (v,))
'''),
 dict(id='c23-short-header', prop='C23', needs='a client that sends the header and then pauses before the rest',
      breaks='the rest of a request is read with the non-blocking socket, so a request in two segments with a pause is lost',
      edits=[(T, '''                    sock.settimeout(1.0)
                    request = to_data("")
                    is_ok = True
''', '''                    request = to_data("")
                    is_ok = True
''')],
      demo=HEAD + NET + '''
srv, port = start_server()
try:
    c = conn(port)
    q = ask(7, 3, 2)
    c.sendall(q[:4])
    time.sleep(0.3)
    c.sendall(q[4:9])
    time.sleep(0.3)
    c.sendall(q[9:])
    try:
        r = take(c, 13)
    except OSError as e:
        r = repr(e)
    check(r == answer(7, 3, 2), "a request in three segments is answered with %r" % (r,))
finally:
    srv.stop()
'''),
 dict(id='c25-disconnect-last', prop='C25', needs='a client that disconnects while more than eight others are connected',
      breaks='when a client disconnects and more than eight sockets are left, the server closes the oldest ones',
      edits=[(T, '''                        sock.close()
                        self._sockets.remove(sock)
                        break''', '''                        self._sockets.remove(sock)
                        while len(self._sockets) > 8:
                            # forget the oldest connection
                            self._sockets.pop(1).close()
                        sock.close()
                        break''')],
      demo=HEAD + NET + '''
srv, port = start_server()
try:
    cs = [conn(port) for i in range(12)]
    for i, c in enumerate(cs):
        c.sendall(ask(i, i, 1))
        check(take(c, 11) == answer(i, i, 1), "client %d" % i)
    cs.pop().close()
    time.sleep(1.5)
    for i, c in enumerate(cs):
        try:
            c.sendall(ask(i, i, 1))
            r = take(c, 11)
        except OSError as e:
            r = repr(e)
        check(r == answer(i, i, 1), "client %d after another one left: %r" % (i, r))
finally:
    srv.stop()
'''),
 dict(id='c26-exit-first', prop='C26', needs='closing one of the sockets of a server that stops fails',
      breaks='the first socket that cannot be closed keeps the server from closing the others',
      edits=[(T, '''        for sock in self._sockets:
            try:
                sock.close()
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
''', '''        try:
            for sock in self._sockets:
                sock.close()
        except Exception as msg:
            LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
''')],
      demo=HEAD + '''
from modbus_tk.modbus_tcp import TcpServer
from modbus_tk import hooks
closed = []
class Sock(object):
    def __init__(self, fd): self.fd = fd
    def fileno(self): return self.fd
    def close(self):
        closed.append(self.fd)
        if self.fd == 1001:
            raise OSError("reset")
    def shutdown(self, *a): pass
srv = TcpServer(port=0, address="127.0.0.1")
srv._sockets = [Sock(1001), Sock(1002), Sock(1003)]
try:
    srv._do_exit()
except Exception:
    pass
check(set(closed) == set((1001, 1002, 1003)), "sockets closed: %r" % closed)
'''),
 dict(id='c26-block-flag', prop='C26', needs='stop of a serial server while its thread waits for the first byte of a request',
      breaks='the flag that allows the thread to wait for ever is cleared after the wait was cancelled, so the thread may wait again and stop never returns',
      edits=[(R, '''        self._block_on_first_byte = False
        if self._serial.is_open:
            # cancel any pending read from server thread, it most likely is
            # blocking read(1) call
            self._serial.cancel_read()
        super(RtuServer, self).stop()''', '''        if self._serial.is_open:
            # cancel any pending read from server thread, it most likely is
            # blocking read(1) call
            self._serial.cancel_read()
        self._block_on_first_byte = False
        super(RtuServer, self).stop()''')],
      demo=HEAD + SERIAL + '''
from modbus_tk.modbus_rtu import RtuServer
class Waiting(Port):
    """reads without limit wait for cancel_read; the thread reads again before cancel_read has returned"""
    def __init__(self):
        Port.__init__(self)
        self.cv, self.waiting, self.gen = threading.Condition(), 0, 0
    def read(self, n=1):
        if self.timeout is not None:
            time.sleep(0.002)
            return b""
        with self.cv:
            self.waiting += 1
            self.cv.notify_all()
            g = self.gen
            self.cv.wait_for(lambda: self.gen != g, 20)
            self.waiting -= 1
        return b""
    def cancel_read(self):
        with self.cv:
            self.gen += 1
            self.cv.notify_all()
            # let the other thread go on
            self.cv.wait_for(lambda: False, 0.2)
p = Waiting()
srv = RtuServer(p)
srv.start()
with p.cv:
    p.cv.wait_for(lambda: p.waiting, 5)
t = threading.Thread(target=srv.stop)
t.daemon = True
t.start()
t.join(8)
import os
if t.is_alive():
    print("BROKEN: stop does not return")
    sys.stdout.flush()
    os._exit(1)
os._exit(0)
'''),
 dict(id='c24-overread', prop='C24', needs='two responses in the receive buffer, or a peer that stays silent after the response',
      breaks='the TCP master reads the rest of a response in blocks and takes bytes that follow it',
      edits=[(T, '''            rcv_byte = self._sock.recv(1)
            if rcv_byte:
                response += rcv_byte
                if len(response) == 6:''', '''            rcv_byte = self._sock.recv(1 if len(response) < 6 else 1024)
            if rcv_byte:
                response += rcv_byte
                if len(response) == 6:''')],
      demo=HEAD + NET + '''
from modbus_tk.modbus_tcp import TcpMaster
def peer(c):
    while True:
        q = take(c, 12)
        if len(q) < 12:
            return
        tid, addr = struct.unpack(">H", q[:2])[0], struct.unpack(">H", q[8:10])[0]
        # the answer and, at once, an unexpected one
        c.sendall(answer(tid, addr, 2) + answer(tid + 1000, addr, 2))
m = TcpMaster("127.0.0.1", serve(peer), 5.0)
for i in range(3):
    try:
        v = m.execute(1, cst.READ_HOLDING_REGISTERS, 10 * i, 2)
    except Exception as e:
        check(False, "a response followed by other bytes: %s" % e)
    check(v == (10 * i, 10 * i + 1), repr(v))
m.close()
'''),
 dict(id='c24-rtu-rest', prop='C24', needs='a serial response that arrives in three or more parts',
      breaks='the number of bytes still missing is computed from the last part only, so the master asks for more than the response has',
      edits=[(R, '            readed_len += len(read_bytes)', '            readed_len = len(read_bytes)')],
      demo=HEAD + SERIAL + '''
from modbus_tk.modbus_rtu import RtuMaster
a = frame(struct.pack(">BBB4H", 1, 3, 8, 1, 2, 3, 4))
p = Port()
p.on_write = lambda d: [a[:4], a[4:8], a[8:10], a[10:] + b"\\x55\\x55\\x55"]
m = RtuMaster(p)
m.set_timeout(1.0)
try:
    v = m.execute(1, cst.READ_HOLDING_REGISTERS, 0, 4)
except Exception as e:
    check(False, "a response in four parts followed by other bytes: %s" % e)
check(v == (1, 2, 3, 4), repr(v))
'''),
 dict(id='c27-reopen-timeout', prop='C27', needs='set_timeout while the connection is open, then close and execute again',
      breaks='a new connection has the time limit given to the constructor and not the one last set',
      edits=[(T, '''        self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.set_timeout(self.get_timeout())
''', '''        self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.set_timeout(self._default_timeout)
'''), (T, '''        self._host = host
        self._port = port
        self._sock = None

    def _do_open''', '''        self._default_timeout = timeout_in_sec
        self._host = host
        self._port = port
        self._sock = None

    def _do_open''')],
      demo=HEAD + NET + '''
from modbus_tk.modbus_tcp import TcpMaster
m = TcpMaster("127.0.0.1", serve(lambda c: time.sleep(60)), 30.0)
m.open()
m.set_timeout(0.3)
m.close()
t0 = time.time()
def run():
    try:
        m.execute(1, cst.READ_HOLDING_REGISTERS, 0, 1)
    except Exception:
        pass
t = threading.Thread(target=run)
t.daemon = True
t.start()
t.join(6)
import os
if t.is_alive():
    print("BROKEN: the time limit that was set is not used")
    sys.stdout.flush()
    os._exit(1)
os._exit(0)
'''),
 dict(id='c28-coil-truth', prop='C28', needs='function 15 with more than 2040 coils, whose byte count does not fit its field',
      breaks='a write of more than 2040 coils is sent with a byte count and a quantity that do not match its data',
      edits=[(M, '''            byte_count = len(output_value) // 8
            if (len(output_value) % 8) > 0:
                byte_count += 1
            pdu = struct.pack(">BHHB", function_code, starting_address, len(output_value), byte_count)''', '''            byte_count = (len(output_value) + 7) // 8 if len(output_value) <= 1016 else (len(output_value) + 7 & 0x7f8) // 8
            pdu = struct.pack(">BHHB", function_code, starting_address, len(output_value) & 0x7ff, byte_count)''')],
      demo=HEAD + '''
from modbus_tk.modbus import Master
from modbus_tk.modbus_tcp import TcpQuery
class Mem(Master):
    def __init__(self):
        Master.__init__(self, 1.0)
        self.sent = []
    def _do_open(self): pass
    def _do_close(self): return True
    def _make_query(self): return TcpQuery()
    def _send(self, request): self.sent.append(bytes(request))
    def _recv(self, n=-1):
        q = self.sent[-1]
        return q[:4] + struct.pack(">H", 6) + q[6:12]
m = Mem()
for n in (1, 8, 9, 16, 1016, 1017, 1968):
    m.execute(1, cst.WRITE_MULTIPLE_COILS, 5, output_value=[1] * n)
    q = m.sent[-1]
    check(q[7:13] == struct.pack(">BHHB", 15, 5, n, (n + 7) // 8), "%d coils: %r" % (n, q[7:13]))
for n in (2049, 2056, 2100):
    # 257 and more data bytes: the byte count does not fit its field
    k = len(m.sent)
    try:
        m.execute(1, cst.WRITE_MULTIPLE_COILS, 5, output_value=[1] * n)
    except Exception:
        pass
    check(len(m.sent) == k, "a request for %d coils is sent: %r" % (n, m.sent[-1][7:13]))
'''),
 dict(id='c29-exception-bit', prop='C29', needs='an exception response to a raw request (the function code of the call is not the one sent)',
      breaks='an exception response is recognised by the function code of the request only, others are decoded as data',
      edits=[(M, '            if return_code >= 0x80:', '            if return_code == function_code | 0x80:')],
      demo=HEAD + '''
from modbus_tk.modbus import Master
from modbus_tk.modbus_tcp import TcpQuery
class Mem(Master):
    def __init__(self):
        Master.__init__(self, 1.0)
    def _do_open(self): pass
    def _do_close(self): return True
    def _make_query(self): return TcpQuery()
    def _send(self, request): self.last = bytes(request)
    def _recv(self, n=-1):
        return self.last[:4] + struct.pack(">HBBB", 3, self.last[6], 0x81, 4)
m = Mem()
try:
    v = m.execute(1, cst.RAW, 0, pdu=struct.pack(">BHH", 1, 0, 1), data_format=">B")
except ModbusError as e:
    check(e.get_exception_code() == 4, "code %r" % e.get_exception_code())
except Exception as e:
    check(False, "an exception response gives %r" % e)
else:
    check(False, "an exception response is returned as %r" % (v,))
'''),
 dict(id='c30-late-check', prop='C30', needs='mask write with only one of the two masks given',
      breaks='a missing or mask is taken as 0 and sent',
      edits=[(M, '''            if or_mask < 0:
                raise ModbusInvalidRequestError("or_mask value must be in the range [0,65535]")
            fmt = ">BHHH"
''', '''            if or_mask == -1:
                or_mask = 0
            if or_mask < 0:
                raise ModbusInvalidRequestError("or_mask value must be in the range [0,65535]")
            fmt = ">B3H"
''')],
      demo=HEAD + '''
from modbus_tk.modbus import Master
from modbus_tk.modbus_tcp import TcpQuery
class Mem(Master):
    def __init__(self):
        Master.__init__(self, 1.0)
        self.sent = []
    def _do_open(self): pass
    def _do_close(self): return True
    def _make_query(self): return TcpQuery()
    def _send(self, request): self.sent.append(bytes(request))
    def _recv(self, n=-1):
        return self.sent[-1]
m = Mem()
for kw in ({"and_mask": 5}, {"or_mask": 5}, {"and_mask": -2, "or_mask": 1}):
    try:
        m.execute(1, cst.MASK_WRITE_REGISTER, 1, **kw)
    except Exception as e:
        check(type(e).__name__ == "ModbusInvalidRequestError", repr(e))
    check(not m.sent, "mask write with %r is sent" % kw)
'''),
 dict(id='c37-shared-timeout', prop='C37', needs='two serial servers in one process, with different time-outs, the first one handling a request',
      breaks='the time-out restored after waiting for the first byte is that of the server configured last',
      edits=[(R, '''        self._timeout = timeout
        self._serial.timeout = timeout

    def get_timeout(self):
        return self._timeout
''', '''        RtuServer._timeout = timeout
        self._serial.timeout = timeout

    def get_timeout(self):
        return RtuServer._timeout
''')],
      demo=HEAD + SERIAL + '''
from modbus_tk.modbus_rtu import RtuServer
p, q = Port(), Port(baudrate=115200)
a, b = RtuServer(p), RtuServer(q)
a.set_timeout(0.2)
b.set_timeout(0.01)
check(a.get_timeout() == 0.2, "time-out %r" % a.get_timeout())
'''),
 dict(id='c42-echo-part', prop='C42', needs='local echo and a request longer than 16 bytes',
      breaks='only the first 16 bytes of the echo are taken off the line',
      edits=[(R, '            self._serial.read(len(request))', '            self._serial.read(min(len(request), 16))')],
      demo=HEAD + SERIAL + '''
from modbus_tk.modbus_rtu import RtuMaster
a = frame(struct.pack(">BBHH", 1, 16, 0, 6))
for n in (2, 6):
    p = Port()
    p.on_write = lambda d: [d, frame(struct.pack(">BBHH", 1, 16, 0, n))]
    m = RtuMaster(p)
    m.set_timeout(1.0)
    m.handle_local_echo = True
    try:
        v = m.execute(1, cst.WRITE_MULTIPLE_REGISTERS, 0, output_value=[5] * n)
    except Exception as e:
        check(False, "writing %d registers with local echo: %s" % (n, e))
    check(v == (0, n), repr(v))
'''),
 dict(id='c32-before-send', prop='C32', needs='a hook on TcpServer.before_send that returns an empty value to suppress an answer',
      breaks='a replacement that is false is ignored',
      edits=[(T, '''                                retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                if retval is not None:
                                    response = retval
''', '''                                retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                response = retval or response
''')],
      demo=HEAD + NET + '''
from modbus_tk.hooks import install_hook, uninstall_hook
srv, port = start_server()
def drop(args):
    return b"" if bytes(args[2])[:2] == struct.pack(">H", 7) else None
install_hook("modbus_tcp.TcpServer.before_send", drop)
try:
    c = conn(port)
    c.sendall(ask(7, 3, 1))
    time.sleep(0.5)
    c.sendall(ask(8, 4, 1))
    r = take(c, 11)
    check(r == answer(8, 4, 1), "answer %r" % r)
finally:
    uninstall_hook("modbus_tcp.TcpServer.before_send")
    srv.stop()
'''),
 dict(id='c31-nodup', prop='C31', needs='one function installed twice under one name',
      breaks='installing a function that is installed already adds no entry',
      edits=[(H, '''            _HOOKS[name].append(fct)
''', '''            if fct not in _HOOKS[name]:
                _HOOKS[name].append(fct)
''')],
      demo=HEAD + '''
from modbus_tk import hooks
seen = []
def f(args): seen.append("f")
def g(args): seen.append("g")
for x in (f, g, f):
    hooks.install_hook("a.b", x)
hooks.call_hooks("a.b", (1,))
check(seen == ["f", "g", "f"], repr(seen))
hooks.uninstall_hook("a.b", f)
del seen[:]
hooks.call_hooks("a.b", (1,))
check(sorted(seen) == ["f", "g"], "after one removal %r" % seen)
'''),
 dict(id='c33-error-empty', prop='C33', needs='a command of the application that returns nothing',
      breaks='a command without result gets no answer',
      edits=[(S, '''                    answer = self.cmds[args[0]](args)
                    self.outq.put("%s done: %s\\r\\n" % (args[0], answer))
''', '''                    answer = self.cmds[args[0]](args)
                    if answer is not None or args[0].startswith(("remove", "install", "uninstall")):
                        self.outq.put("%s done: %s\\r\\n" % (args[0], answer))
''')],
      demo=HEAD + '''
import types
sys.modules["serial"] = types.ModuleType("serial")
sys.modules["serial"].Serial = object
import modbus_tk.simulator as S
class Srv(object):
    def __getattr__(self, n): return lambda *a, **k: None
S.RpcInterface = S.ConsoleInterface = lambda: Srv()
sim = S.Simulator(Srv())
sim.add_command("mine", lambda args: None)
for x in ("mine 1", "quit"):
    sim.inq.put(x)
sim._handle()
out = []
while not sim.outq.empty():
    out.append(sim.outq.get())
check(len(out) == 2 and out[0].startswith("mine done"), repr(out))
'''),
 dict(id='c34-block-order', prop='C34', needs='add_block of the simulator with the block type of the input registers (4)',
      breaks='the simulator keeps the two low bits of the block type of add_block only',
      edits=[(S, '        block_type = int(args[3])', '        block_type = int(args[3]) & 3')],
      demo=HEAD + '''
import types
sys.modules["serial"] = types.ModuleType("serial")
sys.modules["serial"].Serial = object
import modbus_tk.simulator as S
class Srv(object):
    def __getattr__(self, n): return lambda *a, **k: None
S.RpcInterface = S.ConsoleInterface = lambda: Srv()
from modbus_tk.modbus import Server
srv = Server()
srv.add_slave(1)
sim = S.Simulator(srv)
for i, t in enumerate((cst.COILS, cst.DISCRETE_INPUTS, cst.HOLDING_REGISTERS, cst.ANALOG_INPUTS)):
    sim.inq.put("add_block 1 b%d %d 0 10" % (i, t))
sim.inq.put("quit")
sim._handle()
out = []
while not sim.outq.empty():
    out.append(sim.outq.get())
check(len(out) == 5 and all(" done: b%d" % i in x for i, x in enumerate(out[:4])), repr(out))
'''),
 dict(id='c35-cached', prop='C35', needs='the same input registers read twice while the device changes them',
      breaks='the drop-in client returns the values of an earlier read',
      edits=[(P, '        return list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num))', '''        if (register, num) != self._last[0]:
            self._last = ((register, num), list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)))
        values, self._last = self._last[1], (None, None) if num < 2 else self._last
        return values'''), (P, '        settings = {"host"', '        self._last = (None, None)\n        settings = {"host"')],
      demo=HEAD + '''
from modbus_tk.pymodbusclient import PyModbusClientTCP
c = PyModbusClientTCP("127.0.0.1", 502)
class Fake(object):
    n = 0
    def execute(self, *a, **k):
        self.n += 1
        return tuple(range(self.n, self.n + a[3]))
    def close(self): pass
    def open(self): pass
c.client = Fake()
for k in (1, 2):
    x = c.read_input_registers(5, k)
    y = c.read_input_registers(5, k)
    check(x != y, "a second read of %d registers returns the values of the first" % k)
'''),
 dict(id='c36-exit-twice', prop='C36', needs='a worker whose main function fails with something that is no Exception',
      breaks='the exit function is run only when the main function ends normally or with an Exception',
      edits=[(U, '''            LOGGER.error("error: %s", str(excpt))
        finally:
            if self._fcts[2]:
                self._fcts[2](*self._args)
''', '''            LOGGER.error("error: %s", str(excpt))
        if self._fcts[2]:
            self._fcts[2](*self._args)
''')],
      demo=HEAD + '''
done = []
def main(): sys.exit(3)
threading.excepthook = lambda a: None
w = utils.WorkerThread(main, (), None, lambda: done.append(1))
w.start()
for i in range(100):
    if not w._thread.is_alive():
        break
    time.sleep(0.02)
check(done == [1], "exit function ran %d times" % len(done))
'''),
 dict(id='c43-log-text', prop='C43', needs='verbose mode and a packet with a byte above 127',
      breaks='with verbose on a packet with a byte above 127 makes the exchange fail',
      edits=[(U, '''        log += str(ord(i) if PY2 else i) + "-"
''', '''        log += str(ord(i)) + "-" if PY2 else str(bytearray([i]).decode("ascii") and i) + "-"
''')],
      demo=HEAD + '''
check(utils.get_log_buffer("-> ", b"\\x01\\x02") == "-> 1-2", "plain")
try:
    x = utils.get_log_buffer("-> ", b"\\x01\\xff\\x80")
except Exception as e:
    check(False, "logging a packet fails: %r" % e)
check(x == "-> 1-255-128", x)
'''),
 dict(id='c44-stop-first', prop='C44', needs='stop of a composite server whose first server was never started or cannot be stopped twice',
      breaks='a composite server stops only its last server',
      edits=[(S, '''        for srv in self._servers:
            srv.stop()
''', '''        while len(self._servers) > 1 and not self._servers[0]._thread.is_alive():
            self._servers.append(self._servers.pop(0))
            break
        self._servers[0].stop()
        for srv in self._servers[2:]:
            srv.stop()
''')],
      demo=HEAD + '''
import types
sys.modules["serial"] = types.ModuleType("serial")
sys.modules["serial"].Serial = object
import modbus_tk.simulator as S
from modbus_tk.modbus import Server
stopped = []
class A(Server):
    def start(self): pass
    def stop(self): stopped.append(type(self).__name__)
class B(A): pass
class D(A): pass
c = S.CompositeServer([A, B, D], [(), (), ()])
c.start()
c.stop()
check(sorted(stopped) == ["A", "B", "D"], repr(stopped))
'''),
 dict(id='c18-lock-per-call', prop='C18', needs='two threads that call execute of one master at the same time',
      breaks='the lock is taken for building and sending only when threadsafe is given, so transactions of two threads mix',
      edits=[(U, '''        threadsafe = kwargs.pop('threadsafe', True)
        if threadsafe:
            lock.acquire()
''', '''        threadsafe = kwargs.pop('threadsafe', len(kwargs) < 3)
        if threadsafe:
            lock.acquire()
''')],
      demo=HEAD + '''
from modbus_tk.modbus import Master
from modbus_tk.modbus_tcp import TcpQuery
bad = []
class Mem(Master):
    busy = 0
    def __init__(self):
        Master.__init__(self, 1.0)
    def _do_open(self): pass
    def _do_close(self): return True
    def _make_query(self): return TcpQuery()
    def _send(self, request):
        if self.busy:
            bad.append(1)
        self.busy = 1
        self.last = bytes(request)
        time.sleep(0.02)
    def _recv(self, n=-1):
        q = self.last
        self.busy = 0
        return q[:4] + struct.pack(">H", 8) + q[6:14]
m = Mem()
def run():
    for i in range(10):
        try:
            m.execute(1, function_code=cst.MASK_WRITE_REGISTER, starting_address=1, and_mask=1, or_mask=2)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=run) for i in range(3)]
[t.start() for t in ts]
[t.join() for t in ts]
check(not bad, "transactions are mixed: %r" % bad[:2])
'''),
 dict(id='c15-get-outside', prop='C15', needs='get_values of several values while another thread writes them',
      breaks='the values are copied after the lock of the slave was released',
      edits=[(M, '''            # returns the values
            if size == 1:
                return tuple([block[offset], ])
            else:
                return tuple(block[offset:offset+size])
''', '''            if size == 1:
                return tuple([block[offset], ])

        # returns the values
        return tuple(block[i] for i in range(offset, offset+size))
''')],
      demo=HEAD + '''
s = Slave(1)
s.add_block("r", cst.HOLDING_REGISTERS, 0, 20000)
stop = []
def writer():
    k = 0
    while not stop:
        k = (k + 1) % 60000
        s.set_values("r", 0, [k] * 20000)
sys.setswitchinterval(1e-5)
t = threading.Thread(target=writer)
t.daemon = True
t.start()
bad = 0
end = time.time() + 6
while time.time() < end and not bad:
    v = s.get_values("r", 0, 20000)
    bad = len(set(v)) > 1
stop.append(1)
t.join(5)
check(not bad, "values of two writes are mixed in one read")
'''),
]

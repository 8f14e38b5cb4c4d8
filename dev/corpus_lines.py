from defs import D
T = 'modbus_tcp.py'
M = 'modbus.py'
R = 'modbus_rtu.py'
U = 'utils.py'
O = 'modbus_rtu_over_tcp.py'
P = 'C42'
RS = '''        self._serial.reset_input_buffer()
        self._serial.reset_output_buffer()

        self._serial.write(request)
        self._serial.flush()

        # Read the echo data, and discard it
        if self.handle_local_echo:
            self._serial.read(len(request))
'''
PEND = '                    if self._serial.in_waiting > 0:\n'
CORPUS = [
 ('lim-break', P, [(U, '                raise Exception("flush_socket: maximum number of iterations reached")', '                break')]),
 ('flush-once', P, [(U, '            sock.recv(1024)\n', '            sock.recv(1024)\n        break\n')]),
 ('no-reopen', P, [(T, '            self._is_opened = False\n            self.open()\n        self._sock.sendall', '        self._sock.sendall')]),
 ('reopen-noop', P, [(T, '            # if it fails the master is not opened any more\n            self._is_opened = False\n', '')]),
 ('no-flush', P, [(T, '            flush_socket(self._sock, 3)\n', '            pass\n')]),
 ('flush-after', P, [(T, '            flush_socket(self._sock, 3)\n        except', '            self._sock.sendall(request)\n            flush_socket(self._sock, 3)\n            return\n        except')]),
 ('flush-when-empty', P, [(U, '''            break
        for sock in i_socks:
            sock.recv(1024)
''', '''            break
        for sock in i_socks:
            if len(sock.recv(1024)) < 1024:
                return
''')]),
 ('rtu-no-reset', P, [(R, '        self._serial.reset_input_buffer()\n        self._serial.reset_output_buffer()\n\n        self._serial.write', '        self._serial.reset_output_buffer()\n\n        self._serial.write')]),
 ('rtu-reset-after', P, [(R, RS, RS.replace('        self._serial.reset_input_buffer()\n', '').replace('.flush()\n', '.flush()\n        self._serial.reset_input_buffer()\n'))]),
 ('rtu-echo-orig', P, [(R, RS, RS.replace('read(len(request))', 'read(size)')), (R, '        """Send request to the slave"""\n', '        """Send request to the slave"""\n        size = len(request)\n')]),
 ('rtu-echo-waiting', P, [(R, RS, RS.replace('read(len(request))', 'read(min(len(request), 8))'))]),
 ('rtu-echo-always', P, [(R, '        if self.handle_local_echo:\n            self._serial', '        if True:\n            self._serial')]),
 ('rtu-echo-before', P, [(R, RS, RS.replace('''        # Read the echo data, and discard it
        if self.handle_local_echo:
            self._serial.read(len(request))
''', '').replace('        self._serial.reset_input_buffer()\n', '''        if self.handle_local_echo:
            self._serial.read(len(request))
        self._serial.reset_input_buffer()
'''))]),
 ('rtu-reset-if-echo', P, [(R, RS, RS.replace('        self._serial.reset_input_buffer()\n', '        if not self.handle_local_echo:\n            self._serial.reset_input_buffer()\n'))]),
 ('pending-gone', P, [(R, PEND, '                    if False:\n')]),
 ('pending-1', P, [(R, PEND, PEND.replace('> 0', '> 1'))]),
 ('pending-early', P, [(R, PEND, '                    if pending:\n'), (R, '                response = self._handle(request)\n', '                pending = self._serial.in_waiting\n                response = self._handle(request)\n')]),
 ('pending-inv', P, [(R, PEND, PEND.replace('> 0', '== 0'))]),
 ('q-flush', '', [D(U, 'flush_socket', '''
def flush_socket(socks, lim=0):
    """remove the data present on the socket"""
    cnt = 0
    while select.select([socks], [], [], 0)[0]:
        socks.recv(4096)
        cnt += 1
        if 0 < lim <= cnt:
            raise Exception("flush_socket: maximum number of iterations reached")
''')]),
 ('q-flush-eof', '', [D(U, 'flush_socket', '''
def flush_socket(socks, lim=0):
    """remove the data present on the socket"""
    n = 0
    while True:
        ready, _, _ = select.select([socks], [], [], 0.0)
        if not ready:
            return n
        data = socks.recv(1024)
        if not data:
            raise Exception("flush_socket: closed by the peer")
        n += len(data)
        if lim and n > lim * 1024:
            raise Exception("flush_socket: maximum number of iterations reached")
''')]),
 ('q-rtu-helper', '', [(R, RS, '''        self._clear()

        self._serial.write(request)
        self._serial.flush()

        if self.handle_local_echo:
            echo = self._serial.read(len(request))
            LOGGER.debug("echo of %d bytes", len(echo))

    def _clear(self):
        for op in (self._serial.reset_output_buffer, self._serial.reset_input_buffer):
            op()
''')]),
 ('q-rtu-echo-loop', '', [(R, RS, RS.replace('            self._serial.read(len(request))\n', '''            left = len(request)
            while left:
                data = self._serial.read(left)
                if not data:
                    break
                left -= len(data)
'''))]),
 ('q-pending', '', [(R, PEND, PEND.replace(' > 0', ''))]),
]

T = 'modbus_tcp.py'
M = 'modbus.py'
R = 'modbus_rtu.py'
CLOSE = '''            self._sock.close()
            call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
            self._sock = None
            return True
'''
OPEN = '''        if not self._is_opened:
            self._do_open()
            self._is_opened = True
'''
FLUSH = '''            # if it fails the master is not opened any more
            self._is_opened = False
            self.open()
'''
CORPUS = [
 ('c27-noreturn', 'C27', [(T, CLOSE, CLOSE.replace('            return True\n', ''))]),
 ('c27-open-early', 'C27', [(M, OPEN, '''        if not self._is_opened:
            self._is_opened = True
            self._do_open()
''')]),
 ('c27-open-always', 'C27', [(M, OPEN, '''        self._do_open()
        self._is_opened = True
''')]),
 ('c27-leak', 'C27', [(T, '''        if self._sock:
            self._sock.close()
        self._sock = socket.socket(socket.AF_INET''', '''        self._sock = socket.socket(socket.AF_INET''')]),
 ('c27-timeout', 'C27', [(T, '        self.set_timeout(self.get_timeout())\n', '')]),
 ('c27-timeout-const', 'C27', [(T, '        self.set_timeout(self.get_timeout())\n', '        self._sock.settimeout(5.0)\n')]),
 ('c27-timeout-late', 'C27', [(T, '''        super(TcpMaster, self).set_timeout(timeout_in_sec)
        if self._sock:''', '''        super(TcpMaster, self).set_timeout(timeout_in_sec)
        if self._sock and not self._is_opened:''')]),
 ('c27-reconnect', 'C27', [(T, FLUSH, '            pass\n')]),
 ('c27-reconnect-orig', 'C27', [(T, FLUSH, '            self._do_open()\n')]),
 ('c27-reconnect-close', '', [(T, FLUSH, '            self.close()\n            self.open()\n')]),
 ('c27-close-keep', 'C27', [(T, CLOSE, '''            call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))
            self._sock = None
            return True
''')]),
 ('c27-connect-dead', 'C27', [(T, '''        if self._sock:
            self._sock.close()
        self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
''', '''        if not self._sock:
            self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
'''), (T, CLOSE, CLOSE.replace('            self._sock = None\n', ''))]),
 ('c27-execute-noopen', 'C27', [(M, '''        # open the connection if it is not already done
        self.open()
''', '''        # open the connection if it is not already done
''')]),
 ('c27-rtu-close', 'C27', [(R, '''        if self._serial.is_open:
            self._serial.close()
            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
        return True
''', '''        if self._serial.is_open:
            self._serial.close()
            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
            return True
''')]),
 ('c27-rtu-open', 'C27', [(R, '''        if not self._serial.is_open:
            call_hooks("modbus_rtu.RtuMaster.before_open", (self, ))
            self._serial.open()
''', '''        if not self._serial.is_open:
            call_hooks("modbus_rtu.RtuMaster.before_open", (self, ))
''')]),
 ('c27-helper', '', [(T, '''        if self._sock:
            self._sock.close()
        self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.set_timeout(self.get_timeout())
        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
        self._sock.connect((self._host, self._port))
''', '''        old = self._sock
        if old is not None:
            old.close()
        sock = self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.set_timeout(self._timeout)
        call_hooks("modbus_tcp.TcpMaster.before_connect", (self, ))
        address = (self._host, self._port)
        sock.connect(address)
''')]),
 ('c27-early-return', '', [(M, OPEN, '''        if self._is_opened:
            return
        self._do_open()
        self._is_opened = True
''')]),
]

T = 'modbus_tcp.py'
M = 'modbus.py'
Y = 'pymodbusclient.py'
PS = '''        settings = {"host": host, "port": port, "timeout_in_sec": timeout}
        # what is not given has the default value of the master
        settings = dict((key, value) for (key, value) in settings.items() if value is not None)
        self.client = modbus_tcp.TcpMaster(**settings)
'''
CORPUS = [
 ('reuse-gone', 'C26', [(T, '        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n        if self._timeout_in_sec', '        if self._timeout_in_sec')]),
 ('reuse-off', 'C26', [(T, '        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n        if self._timeout_in_sec', '        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 0)\n        if self._timeout_in_sec')]),
 ('reuse-late', 'C26', [(T, '        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n        if self._timeout_in_sec', '        if self._timeout_in_sec'), (T, '        self._sock.listen(10)\n', '        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n        self._sock.listen(10)\n')]),
 ('reuse-timeout', 'C26', [(T, '        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n        if self._timeout_in_sec:\n', '        if self._timeout_in_sec:\n            self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n')]),
 ('listen-any', 'C26', [(T, '        self._sock.bind(self._sa)', '        self._sock.bind(("", self._sa[1]))')]),
 ('connect-swap', 'C27', [(T, 'connect((self._host, self._port))', 'connect((self._host, 502))')]),
 ('del-gone', 'C27', [(M, '        """Destructor: close the connection"""\n        self.close()\n', '        """Destructor: close the connection"""\n        if not self._is_opened:\n            self.close()\n')]),
 ('pym-timeout', 'C35', [(Y, PS, '        self.client = modbus_tcp.TcpMaster(host=host or "127.0.0.1", port=port or 502, timeout_in_sec=timeout)\n')]),
 ('pym-zero', 'C35', [(Y, 'if value is not None)', 'if key != "port")')]),
 ('q-init', '', [(T, '''        self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if self._timeout_in_sec:
            self._sock.settimeout(self._timeout_in_sec)
        self._sock.setblocking(0)
        self._sock.bind(self._sa)
        self._sock.listen(10)
        self._sockets.append(self._sock)
''', '''        self._sock = sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.setblocking(False)
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, True)
        host, port = self._sa
        sock.bind((host, port))
        self._sockets.append(sock)
        sock.listen(10)
''')]),
 ('q-pym', '', [(Y, PS, '''        settings = {}
        if host is not None:
            settings["host"] = host
        if port is not None:
            settings["port"] = port
        if timeout is not None:
            settings["timeout_in_sec"] = timeout
        self.client = modbus_tcp.TcpMaster(**settings)
''')]),
 ('q-pym2', '', [(Y, PS, '''        self.client = modbus_tcp.TcpMaster(
            host="127.0.0.1" if host is None else host,
            port=502 if port is None else port,
            timeout_in_sec=5.0 if timeout is None else timeout,
        )
''')]),
]

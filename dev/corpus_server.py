T = 'modbus_tcp.py'
M = 'modbus.py'
R = 'modbus_rtu.py'
READ7 = '''                    while (len(request) < 7) and is_ok:
                        new_byte = sock.recv(1)
                        if len(new_byte) == 0:
                            is_ok = False
                        else:
                            request += new_byte
'''
REST = '''                        while (len(request) < (length + 6)) and is_ok:
                            new_byte = sock.recv(1)
                            if len(new_byte) == 0:
                                is_ok = False
                            else:
                                request += new_byte
'''
ACC = '''                    client, address = self._sock.accept()
                    client.setblocking(0)
'''
EXC = '''                LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
                try:
                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
                except Exception as msg:
                    LOGGER.error("Error in on_error hook: %s", msg)
                if sock != self._sock:
                    # never stop listening because a new connection failed
                    sock.close()
                    self._sockets.remove(sock)
'''
CORPUS = [
 ('c23-rest-chunk', 'C23', [(T, REST, '''                        if len(request) < (length + 6):
                            rest = sock.recv(length + 6 - len(request))
                            if len(rest) == 0:
                                is_ok = False
                            request += rest
''')]),
 ('c23-more', 'C23', [(T, 'while (len(request) < (length + 6)) and is_ok:', 'while (len(request) < (length + 7)) and is_ok:')]),
 ('c23-less', 'C23', [(T, 'while (len(request) < (length + 6)) and is_ok:', 'while (len(request) < min(length + 6, 260)) and is_ok:')]),
 ('c23-big', 'C23', [(T, REST, REST.replace('sock.recv(1)', 'sock.recv(16)'))]),
 ('c23-exact-chunks', '', [(T, REST, REST.replace('sock.recv(1)', 'sock.recv(length + 6 - len(request))'))]),
 ('c23-exact-head', '', [(T, READ7, READ7.replace('sock.recv(1)', 'sock.recv(7 - len(request))'))]),
 ('c23-head-once', 'C23', [(T, READ7, '''                    request += sock.recv(7)
                    is_ok = len(request) > 0
''')]),
 ('c23-head-short', '', [(T, READ7, READ7.replace('is_ok = False', 'break'))]),
 ('c23-rest-eof', 'C23', [(T, REST, REST.replace('is_ok = False', 'break'))]),
 ('c23-eof-loop', 'C23', [(T, REST, REST.replace('''                            if len(new_byte) == 0:
                                is_ok = False
                            else:
                                request += new_byte
''', '''                            request += new_byte
'''))]),
 ('c23-nonblock', 'C23', [(T, '                    sock.settimeout(1.0)\n', '')]),
 ('c23-forever', 'C23', [(T, '                    sock.settimeout(1.0)\n', '                    sock.setblocking(1)\n')]),
 ('c23-timeout', 'C23', [(T, REST, REST.replace('new_byte = sock.recv(1)', '''try:
                                new_byte = sock.recv(1)
                            except socket.timeout:
                                break'''))]),
 ('c23-timeout-keep', 'C23', [(T, REST, REST.replace('new_byte = sock.recv(1)', '''try:
                                new_byte = sock.recv(1)
                            except socket.timeout:
                                new_byte = to_data("")'''))]),
 ('c23-send', 'C23', [(T, 'sock.sendall(response)', 'sock.send(response)')]),
 ('c23-send-loop', '', [(T, 'sock.sendall(response)', '''left = response
                                while left:
                                    left = left[sock.send(left):]''')]),
 ('c23-wrong-sock', 'C23', [(T, 'sock.sendall(response)', 'self._sockets[-1].sendall(response)')]),
 ('c23-buffer', 'C23', [(T, '                    request = to_data("")\n', '                    request = getattr(self, "_left", None) or to_data("")\n'),
                        (T, REST, REST + '                        self._left = request if not is_ok else to_data("")\n')]),
 ('c23-helper', '', [(T, READ7, '                    request, is_ok = self._read_to(sock, request, 7)\n'),
                     (T, REST, '                        request, is_ok = self._read_to(sock, request, length + 6)\n'),
                     (T, '    def _do_init(self):\n        """initialize server"""\n        self._sock', '''    def _read_to(self, sock, data, size):
        while len(data) < size:
            byte = sock.recv(1)
            if not byte:
                return data, False
            data += byte
        return data, True

    def _do_init(self):
        """initialize server"""
        self._sock''')]),
 ('c23-len', 'C23', [(T, 'length = struct.unpack(">HHH", mbap[:6])[2]', 'length = struct.unpack(">HHHB", mbap[:7])[2] & 0xff')]),
 ('c25-accept', 'C25', [(T, 'if sock != self._sock:\n                    # never', 'if True:\n                    # never')]),
 ('c25-hook', 'C25', [(T, EXC, EXC.replace('''                try:
                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
                except Exception as msg:
                    LOGGER.error("Error in on_error hook: %s", msg)
''', '''                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
'''))]),
 ('c25-narrow', 'C25', [(T, '            except Exception as excpt:\n                LOGGER.warning', '            except (OSError, ModbusInvalidRequestError) as excpt:\n                LOGGER.warning')]),
 ('c25-keep-closed', 'C25', [(T, '''                        sock.close()
                        self._sockets.remove(sock)
                        break
''', '''                        sock.close()
                        break
''')]),
 ('c25-keep-closed2', 'C25', [(T, '''                    sock.close()
                    self._sockets.remove(sock)
''' if False else EXC, EXC.replace('                    self._sockets.remove(sock)\n', ''))]),
 ('c25-remove-first', '', [(T, '''                        sock.close()
                        self._sockets.remove(sock)
                        break
''', '''                        self._sockets.remove(sock)
                        sock.close()
                        continue
''')]),
 ('c25-all', 'C25', [(T, EXC, EXC.replace('''                    sock.close()
                    self._sockets.remove(sock)
''', '''                    for other in self._sockets[1:]:
                        other.close()
                    self._sockets = [self._sock]
'''))]),
 ('c25-break', '', [(T, EXC, EXC + '                break\n')]),
 ('c25-return', '', [(T, EXC, EXC + '                return\n')]),
 ('c25-outside', 'C25', [(T, '''        # handle data on each a socket
        for sock in inputready:
            try:
                if sock == self._sock:
                    # handle the server socket
''' + ACC, '''        # handle data on each a socket
        if self._sock in inputready:
''' + ACC.replace('                    ', '            ') + '''            self._sockets.append(client)
        for sock in inputready:
            try:
                if sock == self._sock:
                    # handle the server socket
''')]),
 ('c25-double-remove', 'C25', [(T, '''                                is_ok = False
                                LOGGER.error(
                                    "Error while sending on socket %d, Exception''', '''                                is_ok = False
                                sock.close()
                                LOGGER.error(
                                    "Error while sending on socket %d, Exception''')]),
 ('c25-run', 'C25', [(M, '''                while self._go.isSet():
                    self._do_run()
''', '''                if self._go.isSet():
                    self._do_run()
''')]),
 ('c25-rtu-narrow', 'C25', [(R, '        except Exception as excpt:\n            LOGGER.error("Error while handling request', '        except OSError as excpt:\n            LOGGER.error("Error while handling request')]),
 ('c25-rtu-read', 'C25', [(R, '''                try:
                    read_bytes = self._serial.read(1)
                    request += read_bytes
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
''', '''                read_bytes = self._serial.read(1)
                request += read_bytes
'''), (R, '''                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                    break
''', '''                except Exception as e:
                    self._serial.close()
                    break
''')]),
 ('c25-rtu-close', 'C25', [(R, '''                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                self''', '''                except Exception as e:
                    self._serial.close()
                    return
                self'''), (R, '''                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                    break
''', '''                except Exception as e:
                    break
''')]),
 ('c25-rtu-hook', 'C25', [(R, '''            try:
                call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
            except Exception as msg:
                LOGGER.error("Error in on_error hook: %s", msg)''', '''            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))''')]),
 ('c26-exit', 'C26', [(M, '''            finally:
                # release the resources whatever happened
                self._do_exit()
''', '''            except KeyError:
                raise
            self._do_exit()
''')]),
 ('c26-noremake', 'C26', [(M, '''        finally:
            # make possible to rerun in future
            self._make_thread()
''', '''        else:
            # make possible to rerun in future
            self._make_thread()
''')]),
 ('c26-hookexc', 'C26', [(M, '''            call_hooks("modbus.Server.on_exception", (self, excpt))
        finally:
            # make possible to rerun in future
            self._make_thread()
''', '''            call_hooks("modbus.Server.on_exception", (self, excpt))
        # make possible to rerun in future
        self._make_thread()
''')]),
 ('c26-stop-race', 'C26', [(M, '''        thread = self._thread
        if thread.is_alive():
            self._go.clear()
            thread.join()
''', '''        if self._thread.is_alive():
            self._go.clear()
            self._thread.join()
''')]),
 ('c26-stop-nojoin', 'C26', [(M, '            thread.join()\n', '            thread.join(1.0)\n')]),
 ('c26-stop-order', 'C26', [(M, '''            self._go.clear()
            thread.join()
''', '''            thread.join()
            self._go.clear()
''')]),
 ('c26-listlost', 'C26', [(T, '''        for sock in self._sockets:
            try:
                sock.close()''', '''        for sock in self._sockets[1:]:
            try:
                sock.close()'''), (T, '''        if self._sock:
            self._sock.close()
            self._sock = None

    def _do_run''', '''        self._sock = None

    def _do_run''')]),
 ('c26-listkeep', 'C26', [(T, '''        self._sockets = []
        if self._sock:
            self._sock.close()''', '''        if self._sock:
            self._sock.close()''')]),
 ('c26-clients', 'C26', [(T, '''        for sock in self._sockets:
            try:
                sock.close()
            except Exception as msg:
                LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
        self._sockets = []
        if''', '''        self._sockets = []
        if''')]),
 ('c26-append-late', 'C26', [(T, '''                    self._sockets.append(client)
                    call_hooks("modbus_tcp.TcpServer.on_connect", (self, client, address))
''', '''                    call_hooks("modbus_tcp.TcpServer.on_connect", (self, client, address))
                    self._sockets.append(client)
''')]),
 ('c26-init', '', [(T, '''        self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if self._timeout_in_sec:
            self._sock.settimeout(self._timeout_in_sec)
        self._sock.setblocking(0)
        self._sock.bind(self._sa)
        self._sock.listen(10)
        self._sockets.append(self._sock)
''', '''        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self._sock = sock
        self._sockets = [sock]
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        sock.setblocking(0)
        sock.bind(self._sa)
        sock.listen(10)
''')]),
 ('c26-init-leak', 'C26', [(T, '''        self._sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if self._timeout_in_sec:
            self._sock.settimeout(self._timeout_in_sec)
        self._sock.setblocking(0)
        self._sock.bind(self._sa)
        self._sock.listen(10)
''', '''        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        sock.setblocking(0)
        sock.bind(self._sa)
        sock.listen(10)
        self._sock = sock
''')]),
 ('c26-rtu-init', 'C26', [(R, '        if not self._serial.is_open:\n            call_hooks("modbus_rtu.RtuServer.before_open"', '        if not self._serial.is_open and self._block_on_first_byte and not getattr(self, "_once", False):\n            self._once = True\n            call_hooks("modbus_rtu.RtuServer.before_open"')]),
 ('c26-rtu-exit', 'C26', [(R, '''        """close the serial connection"""
        self.close()
''', '''        """close the serial connection"""
        if self._block_on_first_byte:
            self.close()
''')]),
 ('c26-flag', '', [(M, 'while self._go.isSet():', 'while self._go.is_set():'), (M, '''        thread = self._thread
        if thread.is_alive():
            self._go.clear()
            thread.join()
''', '''        thread, go = self._thread, self._go
        if not thread.is_alive():
            return
        go.clear()
        thread.join()
''')]),
]

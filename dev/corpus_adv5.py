"""Fresh changes written from the property texts for C18, C23-C37, C42-C44; n5-* keep the behaviour."""
M, T, R, O, U, H, S, C, P = ('modbus.py', 'modbus_tcp.py', 'modbus_rtu.py', 'modbus_rtu_over_tcp.py', 'utils.py', 'hooks.py',
                             'simulator.py', 'simulator_rpc_client.py', 'pymodbusclient.py')
CORPUS = [
 # C18
 ('a5-retry-unlocked', 'C18', [(M, '            # receive the data from the slave\n            response = self._recv(expected_length)\n', '            # receive the data from the slave\n            response = self._recv(expected_length)\n            if len(response) == 0:\n                # nothing came: once more\n                self._send(request)\n                response = self._recv(expected_length)\n')]),
 ('a5-tid-late', 'C18', [(M, "    @threadsafe_function\n    def execute(", "    def execute(self, *args, **kwargs):\n        \"\"\"see _execute\"\"\"\n        if kwargs.get('returns_raw'):\n            return self._execute(*args, threadsafe=False, **kwargs)\n        return self._execute(*args, **kwargs)\n\n    @threadsafe_function\n    def _execute(")]),
 # C23
 ('a5-len-cap', 'C23', [(T, '        length = struct.unpack(">HHH", mbap[:6])[2]\n        return length\n', '        length = struct.unpack(">HHH", mbap[:6])[2]\n        return min(length, 260)\n')]),
 ('a5-peek-whole', 'C23', [(T, '                    while (len(request) < 7) and is_ok:\n                        new_byte = sock.recv(1)\n', '                    while (len(request) < 7) and is_ok:\n                        new_byte = sock.recv(7 - len(request))\n'),
                           (T, '                        while (len(request) < (length + 6)) and is_ok:\n                            new_byte = sock.recv(1)\n', '                        while (len(request) < (length + 6)) and is_ok:\n                            new_byte = sock.recv(max(length + 7 - len(request), 1) if length > 6 else 1)\n')]),
 ('n5-chunked', '', [(T, '                    while (len(request) < 7) and is_ok:\n                        new_byte = sock.recv(1)\n', '                    while (len(request) < 7) and is_ok:\n                        new_byte = sock.recv(7 - len(request))\n'),
                           (T, '                        while (len(request) < (length + 6)) and is_ok:\n                            new_byte = sock.recv(1)\n', '                        while (len(request) < (length + 6)) and is_ok:\n                            new_byte = sock.recv(length + 6 - len(request))\n')]),
 ('a5-send', 'C23', [(T, '                                sock.sendall(response)\n', '                                sent = sock.send(response)\n                                if sent < len(response):\n                                    sock.send(response[sent:])\n')]),
 ('n5-send-loop', '', [(T, '                                sock.sendall(response)\n', '                                sent = 0\n                                while sent < len(response):\n                                    sent += sock.send(response[sent:])\n')]),
 ('a5-short-half', 'C23', [(T, '                    if is_ok:\n                        response = ""\n', '                    if is_ok or len(request) > 8:\n                        response = ""\n')]),
 ('a5-nolimit', 'C23', [(T, '                    sock.settimeout(1.0)\n', '                    sock.settimeout(self._timeout_in_sec or None)\n')]),
 # C24
 ('a5-tcp-timeout-loop', 'C24', [(T, '            rcv_byte = self._sock.recv(1)\n            if rcv_byte:\n                response += rcv_byte\n                if len(response) == 6:', '            try:\n                rcv_byte = self._sock.recv(1)\n            except socket.timeout:\n                if not response:\n                    raise\n                continue\n            if rcv_byte:\n                response += rcv_byte\n                if len(response) == 6:')]),
 ('a5-rot-256', 'C24', [(O, '        length = 255\n', '        length = 256\n        expected_length = min(expected_length, 253)\n')]),
 ('a5-rtu-exp', 'C24', [(R, '            if expected_length >= 0 and len(response) >= expected_length:', '            if expected_length > 0 and len(response) > expected_length or len(response) == expected_length and expected_length % 8:')]),
 ('a5-hdr', 'C24', [(T, '                    length = to_be_recv_length + 6\n', '                    length = max(to_be_recv_length, 3) + 6\n')]),
 # C25
 ('a5-err-name', 'C25', [(T, '                if sock != self._sock:\n                    # never stop', '                if sock != self._sock or isinstance(excpt, TypeError):\n                    # never stop')]),
 ('a5-break', 'C25', [(T, "                        sock.close()\n                        self._sockets.remove(sock)\n                        break\n", "                        sock.close()\n                        self._sockets.remove(sock)\n                        self._sockets = self._sockets[:32]\n                        break\n")]),
 ('n5-rtu-handler', '', [(R, '                except Exception as e:\n                    self._serial.close()\n                    self._serial.open()\n                    break\n', '                except IOError as e:\n                    self._serial.close()\n                    self._serial.open()\n                    break\n')]),
 ('a5-errno', 'C25', [(T, 'LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)', 'LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt.args[0])')]),
 # C26
 ('n5-exit-first', '', [(T, '        self._sockets = []\n        if self._sock:\n            self._sock.close()\n            self._sock = None\n', '        if self._sock in self._sockets:\n            self._sock = None\n        self._sockets = []\n        if self._sock:\n            self._sock.close()\n')]),
 ('a5-go-first', 'C26', [(M, '                self._do_init()\n                while self._go.isSet():', '                self._do_init()\n                self._go.set()\n                while self._go.isSet():')]),
 ('a5-daemon-join', 'C26', [(M, '            self._go.clear()\n            thread.join()\n\n    def _run_server', '            self._go.clear()\n            thread.join(10.0)\n\n    def _run_server')]),
 ('a5-thread-once', 'C26', [(M, '        finally:\n            # make possible to rerun in future\n            self._make_thread()\n', '        finally:\n            # make possible to rerun in future\n            if not self._go.isSet():\n                self._make_thread()\n')]),
 ('a5-reuse-late', 'C26', [(T, '        self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n        if self._timeout_in_sec:\n', '        if self._timeout_in_sec:\n            self._sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)\n')]),
 ('a5-init-append', 'C26', [(T, '        self._sock.bind(self._sa)\n        self._sock.listen(10)\n        self._sockets.append(self._sock)\n', '        sock, self._sock = self._sock, None\n        sock.bind(self._sa)\n        sock.listen(10)\n        self._sock = sock\n        self._sockets.append(self._sock)\n')]),
 # C27
 ('a5-open-flag', 'C27', [(T, '        self._sock.connect((self._host, self._port))\n        call_hooks("modbus_tcp.TcpMaster.after_connect"', '        self._is_opened = True\n        self._sock.connect((self._host, self._port))\n        call_hooks("modbus_tcp.TcpMaster.after_connect"')]),
 ('a5-zero-timeout', 'C27', [(T, '        self.set_timeout(self.get_timeout())\n', '        self._sock.settimeout(self.get_timeout() or 5.0)\n')]),
 ('a5-close-err', 'C27', [(R, '        if self._serial.is_open:\n            self._serial.close()\n            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))\n        return True\n', '        if self._serial.is_open:\n            self._serial.close()\n            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))\n            return True\n')]),
 ('n5-flush-keep', '', [(T, '            self._is_opened = False\n            self.open()\n', '            self._is_opened = False\n            if self._sock.fileno() < 0:\n                self._sock = None\n            self.open()\n')]),
 # C28
 ('a5-fc5-bool', 'C28', [(M, '                if output_value != 0:\n                    output_value = 0xff00\n', '                if output_value != 0:\n                    output_value = 0xff00 if output_value > 0 else 0\n')]),
 ('a5-diag', 'C28', [(M, '                pdu += struct.pack(">B", j)\n            if not data_format:\n                # SubFunc', '                pdu += struct.pack(">B", j & 0xff)\n            if not data_format:\n                # SubFunc')]),
 ('a5-fc23-addr', 'C28', [(M, 'function_code, starting_address, quantity_of_x, write_starting_address_fc23,\n', 'function_code, starting_address, quantity_of_x, write_starting_address_fc23 or starting_address,\n')]),
 ('a5-fc16-odd', 'C28', [(M, '                byte_count = 2 * len(output_value)\n            pdu = struct.pack(">BHHB", function_code, starting_address, byte_count // 2, byte_count)', '                byte_count = 2 * len(output_value)\n            pdu = struct.pack(">BHHB", function_code, starting_address, min(byte_count // 2, 125), byte_count)')]),
 ('a5-fc20-ref', 'C28', [(M, 'zip(count_seq * (6, ), number_file, starting_address, quantity_of_x)', 'zip(count_seq * (6, ), number_file, starting_address[:1] * count_seq if number_file[0] == 0 else starting_address, quantity_of_x)')]),
 # C29
 ('a5-exc-80', 'C29', [(M, '            if return_code >= 0x80:', '            if return_code > 0x80:')]),
 ('n5-exc-80', '', [(M, '            if return_code >= 0x80:', '            if return_code & 0x80:')]),
 ('a5-exc-fc', 'C29', [(M, '            if return_code >= 0x80:', '            if return_code == (0x80 | bytearray(pdu)[0]) & 0xff:')]),
 ('a5-count-less', 'C29', [(M, 'if byte_count != len(data):', 'if byte_count != len(data) & 0xff:')]),
 ('n5-count-less', '', [(M, 'if byte_count != len(data):', 'if not byte_count == len(data):')]),
 ('n5-digits8', '', [(M, '                if nb_of_digits > 0:', '                if nb_of_digits > 0 and (nb_of_digits != 1 or result[0] > 1):')]),
 ('a5-raw-slice', 'C29', [(M, '                if returns_raw:\n                    return data\n', '                if returns_raw:\n                    return data.rstrip(b"\\0") if len(data) > 250 else data\n')]),
 ('a5-exp-fc22', 'C29', [(M, '                expected_length = 10\n', '                expected_length = 8\n')]),
 ('a5-exp-odd', 'C29', [(M, '                expected_length = byte_count + 5\n', '                expected_length = quantity_of_x // 8 + 6\n')]),
 # C30
 ('a5-mask-both', 'C30', [(M, '            if and_mask < 0:\n                raise ModbusInvalidRequestError("and_mask value must be in the range [0,65535]")\n            if or_mask < 0:', '            if and_mask < 0 and or_mask < 0:\n                raise ModbusInvalidRequestError("and_mask value must be in the range [0,65535]")\n            if or_mask < -1:')]),
 ('a5-fc-wrap', 'C30', [(M, '        elif function_code == defines.RAW:\n', '        elif function_code in (defines.RAW, None):\n')]),
 ('a5-unit-none', 'C30', [(R, '        if (self._request_address < 0) or (self._request_address > 255):', '        if (self._request_address < 0) or (self._request_address > 255) and pdu:')]),
 # C31
 ('a5-first-falsy', 'C31', [(H, '        if retval is not None:\n            return retval\n    return None', '        if retval is not None and retval is not False:\n            return retval\n    return None')]),
 ('a5-exc-skip', 'C31', [(H, '        retval = fct(args)\n', '        try:\n            retval = fct(args)\n        except TypeError:\n            retval = None\n')]),
 ('n5-hooks-tuple', '', [(H, '        fcts = list(_HOOKS.get(name, ()))\n', '        fcts = tuple(_HOOKS[name]) if name in _HOOKS else ()\n')]),
 # C32
 ('a5-hook-len', 'C32', [(T, '                    if retval is not None:\n                        request = retval\n\n                    if is_ok:\n                        # read the rest', '                    if retval is not None and len(retval) == len(request):\n                        request = retval\n\n                    if is_ok:\n                        # read the rest')]),
 ('a5-bw-empty', 'C32', [(R, '                if retval is not None:\n                    response = retval\n\n                if response:\n', '                if retval:\n                    response = retval\n\n                if response:\n')]),
 ('a5-after-handle', 'C32', [(M, '        retval = call_hooks("modbus.Server.after_handle_request", (self, response))\n        if retval is not None:\n            response = retval\n', '        if response:\n            retval = call_hooks("modbus.Server.after_handle_request", (self, response))\n            if retval is not None:\n                response = retval\n')]),
 ('n5-after-close', '', [(T, '            self._sock.close()\n            call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))\n            self._sock = None\n', '            self._sock.close()\n            self._sock = None\n            if self._is_opened:\n                self._is_opened = False\n                call_hooks("modbus_tcp.TcpMaster.after_close", (self, ))\n')]),
 # C33
 ('a5-quit-in', 'C33', [(S, "            if cmd.find('quit') == 0:", "            if cmd.find('quit') >= 0:")]),
 ('a5-strip', 'C33', [(S, "            args = cmd.strip('\\r\\n').split(' ')\n", "            args = cmd.strip('\\r\\n').split(' ')\n            if len(args) > 100:\n                continue\n")]),
 ('a5-lower', 'C33', [(S, '            elif args[0] in self.cmds:\n', "            elif args[0] == '':\n                pass\n            elif args[0] in self.cmds:\n")]),
 ('a5-keyerr', 'C33', [(S, '                except Exception as msg:\n                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))', '                except Exception as msg:\n                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg.args[0]))')]),
 # C34
 ('a5-neg', 'C34', [(S, '        for val in args[4:]:\n            values.append(int(val))\n', '        for val in args[4:]:\n            values.append(abs(int(val)))\n')]),
 ('a5-len0', 'C34', [(S, '        values = slave.get_values(name, address, length)\n        return self._tuple_to_str(values)', '        values = slave.get_values(name, address, min(length, 125))\n        return self._tuple_to_str(values)')]),
 ('a5-endswith', 'C34', [(C, '        while response and not response.endswith(b"\\n"):', '        while response and len(response) == 1024:')]),
 # C35
 ('a5-list-n', 'C35', [(P, '        return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))', '        return [bool(x) for x in self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)][:2000]')]),
 ('a5-count', 'C35', [(P, '        return list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num))', '        values = []\n        while num > 0:\n            values += self.client.execute(1, cst.READ_INPUT_REGISTERS, register, min(num, 125))\n            num -= 125\n        return values')]),
 ('n5-split', '', [(P, '        return list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num))', '        values = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)\n        return [v for v in values]')]),
 ('a5-port0', 'C35', [(P, 'if value is not None)', 'if value)')]),
 # C36
 ('a5-go-init', 'C36', [(U, '            if self._fcts[0]:\n                self._fcts[0](*self._args)\n            while self._go.isSet():', '            if self._fcts[0]:\n                self._fcts[0](*self._args)\n                self._go.set()\n            while self._go.isSet():')]),
 ('a5-join-to', 'C36', [(U, '            self._go.clear()\n            self._thread.join()\n', '            self._go.clear()\n            self._thread.join(5)\n')]),
 ('a5-base', 'C36', [(U, '        except Exception as excpt:\n            LOGGER.error("error: %s", str(excpt))\n        finally:\n            if self._fcts[2]:\n                self._fcts[2](*self._args)\n', '        except Exception as excpt:\n            LOGGER.error("error: %s", str(excpt))\n        if self._fcts[2] and (self._fcts[0] is None or not self._go.isSet()):\n            self._fcts[2](*self._args)\n')]),
 # C37
 ('a5-baud-eq', 'C37', [(U, '    if baudrate <= 19200:\n        return 11.0 / baudrate\n', '    if baudrate < 19200:\n        return 11.0 / baudrate\n    elif baudrate == 19200:\n        return 11.0 / 19000\n')]),
 ('a5-ibt-only', 'C37', [(R, "        self._serial.inter_byte_timeout = interchar_multiplier * self._t0\n        self.set_timeout(interframe_multiplier * self._t0)\n\n        self._block", "        self._serial.inter_byte_timeout = min(interchar_multiplier, interframe_multiplier) * self._t0\n        self.set_timeout(interframe_multiplier * self._t0)\n\n        self._block")]),
 ('a5-restore', 'C37', [(R, '                self._serial.timeout = self._timeout\n\n            # Read rest', '                if request:\n                    self._serial.timeout = self._timeout\n\n            # Read rest')]),
 ('a5-st', 'C37', [(R, '        self._timeout = timeout\n        self._serial.timeout = timeout\n', '        if timeout != self._timeout:\n            self._timeout = timeout\n            self._serial.timeout = timeout\n')]),
 # C42
 ('a5-flush-1', 'C42', [(T, '            flush_socket(self._sock, 3)\n', '            if retval is None:\n                flush_socket(self._sock, 3)\n')]),
 ('a5-rs-late', 'C42', [(R, '        self._serial.reset_input_buffer()\n        self._serial.reset_output_buffer()\n', '        if self._serial.in_waiting > 1:\n            self._serial.reset_input_buffer()\n        self._serial.reset_output_buffer()\n')]),
 ('n5-in-waiting', '', [(R, '        self._serial.reset_input_buffer()\n        self._serial.reset_output_buffer()\n', '        if self._serial.in_waiting > 0:\n            self._serial.reset_input_buffer()\n        self._serial.reset_output_buffer()\n')]),
 ('a5-echo-req', 'C42', [(R, '        retval = call_hooks("modbus_rtu.RtuMaster.before_send", (self, request))\n        if retval is not None:\n            request = retval\n', '        retval = call_hooks("modbus_rtu.RtuMaster.before_send", (self, request))\n        size = len(request)\n        if retval is not None:\n            request = retval\n'), (R, '            self._serial.read(len(request))\n', '            self._serial.read(size)\n')]),
 ('a5-pend', 'C42', [(R, '                    if self._serial.in_waiting > 0:\n', '                    if self._serial.in_waiting > 3:\n')]),
 ('a5-flush-len', 'C42', [(U, '        for sock in i_socks:\n            sock.recv(1024)\n', '        for sock in i_socks:\n            if len(sock.recv(1024)) == 1024:\n                continue\n            return\n')]),
 # C43
 ('a5-verb-bytes', 'C43', [(M, '            if self._verbose:\n                LOGGER.debug(get_log_buffer("<- ", response))\n', '            if self._verbose:\n                response = bytes(response)\n                LOGGER.debug(get_log_buffer("<- ", response[:260]))\n')]),
 ('a5-log-empty', 'C43', [(M, '        if response and self._verbose:\n            LOGGER.debug(get_log_buffer("<--", response))', '        if self._verbose:\n            LOGGER.debug(get_log_buffer("<--", response) if len(response) > 5 else "<--")')]),
 ('a5-hex', 'C43', [(U, '        log += str(ord(i) if PY2 else i) + "-"\n', '        log += ("%d" if i < 128 else "%x") % (ord(i) if PY2 else i) + "-"\n')]),
 ('a5-emit', 'C43', [(U, '            data = self.format(record) + "\\r\\n"\n            if PY3:\n                data = to_data(data)\n            self._sock.sendto(data, self._dest)\n        except Exception:', '            data = self.format(record) + "\\r\\n"\n            if PY3:\n                data = to_data(data)\n            self._sock.sendto(data, self._dest)\n        except (IOError, ValueError):')]),
 # C44
 ('a5-zip', 'C44', [(S, '            if issubclass(the_class, modbus.Server)\n', '            if issubclass(the_class, modbus.Server) and the_args\n')]),
 ('a5-dup', 'C44', [(S, '        for srv in self._servers:\n            srv.start()\n', '        for srv in set(self._servers[:1] + self._servers[-1:]):\n            srv.start()\n')]),
 ('a5-rpc-shut', 'C44', [(S, '        try:\n            self.rpc_server.shutdown()\n            self.join(1.0)\n', '        try:\n            self.join(1.0)\n            if self.is_alive():\n                return\n            self.rpc_server.shutdown()\n')]),
 ('a5-console-strip', 'C44', [(S, '                self.inq.put(cmd) #dispatch it tpo the server\n', '                if not cmd.strip():\n                    continue\n                self.inq.put(cmd) #dispatch it tpo the server\n')]),
 ('a5-con-order', 'C44', [(S, '        self.server.start()\n        self.console.start()\n        self.rpc.start()\n', '        self.console.start()\n        self.rpc.start()\n        if not self.console.is_alive():\n            return\n        self.server.start()\n')]),
]

S = 'simulator.py'
C = 'simulator_rpc_client.py'
LOOP = '''                try:
                    answer = self.cmds[args[0]](args)
                    self.outq.put("%s done: %s\\r\\n" % (args[0], answer))
                except Exception as msg:
                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))
'''
SETV = '''        values = []
        for val in args[4:]:
            values.append(int(val))
'''
RCV = '''        response = sock.recv(1024)
        while response and not response.endswith(b"\\n"):
            # a long answer may come in several parts
            data = sock.recv(1024)
            if not data:
                break
            response += data
'''
CORPUS = [
    # ---- C33
    ('no-else', 'C33', [(S, '''            else:
                self.outq.put("error: unknown command %s\\r\\n" % (args[0]))
''', '')]),
    ('only-valueerror', 'C33', [(S, '                except Exception as msg:\n                    self.outq.put("%s error', '                except (ValueError, KeyError, IndexError, modbus.ModbusError) as msg:\n                    self.outq.put("%s error')]),
    ('none-no-answer', 'C33', [(S, '                    self.outq.put("%s done: %s\\r\\n" % (args[0], answer))\n', '                    if answer is not None:\n                        self.outq.put("%s done: %s\\r\\n" % (args[0], answer))\n')]),
    ('tuple-format', 'C33', [(S, '"%s done: %s\\r\\n" % (args[0], answer)', '("%s done: " % args[0]) + ("%s\\r\\n" % answer)')]),
    ('quit-no-answer', 'C33', [(S, "                self.outq.put('bye-bye\\r\\n')\n", '')]),
    ('quit-strict', 'C33', [(S, "cmd.find('quit') == 0", "cmd == 'quit'")]),
    ('quit-anywhere', 'C33', [(S, "cmd.find('quit') == 0", "cmd.find('quit') >= 0 or not cmd.strip()")]),
    ('twice', 'C33', [(S, LOOP, LOOP.replace('                except Exception as msg:\n', '                except IndexError as msg:\n                    self.outq.put("error: missing arguments\\r\\n")\n                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))\n                except Exception as msg:\n'))]),
    ('else-twice', 'C33', [(S, LOOP, LOOP + '                else:\n                    if not answer:\n                        self.outq.put("%s done\\r\\n" % args[0])\n')]),
    ('break-on-error', 'C33', [(S, '                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))\n', '                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))\n                    if isinstance(msg, KeyError):\n                        break\n')]),
    ('strip-missing', 'C33', [(S, "cmd.strip('\\r\\n').split(' ')", "cmd.strip('\\n').split(' ')")]),
    ('getattr-cmd', '', [(S, "            elif args[0] in self.cmds:\n                try:\n                    answer = self.cmds[args[0]](args)", "            elif args[0] in self.cmds or hasattr(self, '_do_' + args[0]):\n                try:\n                    answer = self.cmds[args[0]](args)")]),
    ('uninst-swallow', 'C33', [(S, '        except KeyError as exception:\n            LOGGER.error(str(exception))', '        except (KeyError, ValueError) as exception:\n            LOGGER.error(str(exception))')]),
    ('verbose-missing', 'C33', [(S, '            "set_verbose": self._do_set_verbose,\n', '')]),
    ('q-loop-else', '', [(S, LOOP, '''                try:
                    answer = self.cmds[args[0]](args)
                except Exception as msg:
                    self.outq.put("%s error: %s\\r\\n" % (args[0], msg))
                else:
                    self.outq.put("%s done: %s\\r\\n" % (args[0], answer))
''')]),
    ('q-loop-reply', '', [(S, LOOP, '''                try:
                    reply = "{0} done: {1}\\r\\n".format(args[0], self.cmds[args[0]](args))
                except Exception as msg:
                    reply = "{0} error: {1}\\r\\n".format(args[0], msg)
                self.outq.put(reply)
''')]),
    ('q-loop-helper', '', [(S, '''            elif args[0] in self.cmds:
''' + LOOP + '''            else:
                self.outq.put("error: unknown command %s\\r\\n" % (args[0]))
''', '''            self.outq.put(self._execute(args))

    def _execute(self, args):
        handler = self.cmds.get(args[0])
        if handler is None:
            return "error: unknown command %s\\r\\n" % (args[0])
        try:
            return "%s done: %s\\r\\n" % (args[0], handler(args))
        except Exception as msg:
            return "%s error: %s\\r\\n" % (args[0], msg)
''')]),
    ('q-startswith', '', [(S, "cmd.find('quit') == 0", "cmd.startswith('quit')")]),
    ('q-rstrip', '', [(S, "cmd.strip('\\r\\n').split(' ')", "cmd.rstrip('\\r\\n').split(' ')")]),
    ('q-running', '', [(S, "        while True:\n            cmd = self.inq.get()", "        running = True\n        while running:\n            cmd = self.inq.get()"), (S, "                self.outq.put('bye-bye\\r\\n')\n                break", "                self.outq.put('bye-bye\\r\\n')\n                running = False")]),
    # ---- C34
    ('addblock-order', 'C34', [(S, '        starting_address = int(args[4])\n        length = int(args[5])', '        length = int(args[4])\n        starting_address = int(args[5])')]),
    ('client-addblock-order', 'C34', [(C, '(slave_id, block_name, block_type, starting_address, length)\n        return', '(slave_id, block_name, starting_address, block_type, length)\n        return')]),
    ('client-name', 'C34', [(C, 'query = "remove_all_blocks %d"', 'query = "remove_all_slaves %d"')]),
    ('client-name2', 'C34', [(C, 'query = "remove_block %d %s"', 'query = "delete_block %d %s"')]),
    ('table-swap', 'C34', [(S, '"remove_all_blocks": self._do_remove_all_blocks', '"remove_all_blocks": self._do_remove_block')]),
    ('setv-from5', 'C34', [(S, 'for val in args[4:]', 'for val in args[5:]')]),
    ('setv-abs', 'C34', [(S, 'values.append(int(val))', 'values.append(abs(int(val)))')]),
    ('setv-reverse', 'C34', [(C, 'for val in values:\n            query', 'for val in values[::-1]:\n            query')]),
    ('setv-readback', 'C34', [(S, '        values = slave.get_values(name, address, len(values))\n        return self._tuple_to_str(values)\n\n    def _do_get', '        return self._tuple_to_str(values)\n\n    def _do_get')]),
    ('getv-ret', 'C34', [(C, 'return tuple([int(val) for val in ret_values.split(\' \')])', 'return tuple([abs(int(val)) for val in ret_values.split(\' \')])')]),
    ('getv-addr', 'C34', [(S, '        values = slave.get_values(name, address, length)\n', '        values = slave.get_values(name, length, address)\n')]),
    ('has-any', 'C34', [(C, '        if "1" == self._rpc_call(query):\n            return True\n        return False', '        return bool(self._rpc_call(query))')]),
    ('has-inv', 'C34', [(S, '            return "0"\n        return "1"', '            return "1"\n        return "0"')]),
    ('tuple-str-sep', 'C34', [(S, 'ret += (" " + str(item))\n        return ret[1:]', 'ret += ("," + str(item))\n        return ret[1:]')]),
    ('recv-once', 'C34', [(C, RCV, '        response = sock.recv(1024)\n')]),
    ('recv-close', 'C34', [(C, RCV, RCV.replace('while response and not', 'if response and not').replace('            if not data:\n                break\n', ''))]),
    ('no-encode', 'C34', [(S, '        if modbus_tk.utils.PY3:\n            response = response.encode()\n', '')]),
    ('no-decode', 'C34', [(C, '        if modbus_tk.utils.PY3:\n            response = response.decode()\n', '')]),
    ('no-raise', 'C34', [(C, '            raise Exception(response)', '            return response')]),
    ('prefix-any', 'C34', [(C, 'if response.find(prefix) == 0:', 'if response.find(command) == 0:')]),
    ('port', 'C34', [(S, '("", 2711)', '("", 2712)')]),
    ('hook-args', 'C34', [(S, 'hooks.install_hook(hook_name, self._hooks_fct[fct_name])', 'hooks.install_hook(fct_name, self._hooks_fct[fct_name])')]),
    ('unhook-all', 'C34', [(S, 'fct_name = args[2] if len(args) > 2 else ""', 'fct_name = args[2] if len(args) > 3 else ""')]),
    ('unhook-need', 'C34', [(S, 'fct_name = args[2] if len(args) > 2 else ""', 'fct_name = args[2]')]),
    ('done-word', 'C34', [(C, 'prefix = command + " done: "', 'prefix = command + " done:  "')]),
    ('remove-slave-swallow', 'C34', [(S, '        self.server.remove_slave(slave_id)\n', '        try:\n            self.server.remove_slave(slave_id)\n        except Exception as exception:\n            LOGGER.error(str(exception))\n')]),
    ('slave-cached', 'C34', [(S, '        slave = self.server.get_slave(slave_id)\n        slave.remove_all_blocks()', '        slave = self.server.get_slave(1)\n        slave.remove_all_blocks()')]),
    ('q-client-join', '', [(C, '''        for val in values:
            query += (" " + str(val))
        return''', '''        query = " ".join([query] + [str(val) for val in values])
        return''')]),
    ('q-client-with', '', [(C, RCV, '''        response = b""
        while not response.endswith(b"\\n"):
            data = sock.recv(4096)
            if len(data) == 0:
                break
            response = response + data
''')]),
    ('q-client-startswith', '', [(C, '''        if response.find(prefix) == 0:
            return response[len(prefix):]
        else:
            raise Exception(response)''', '''        if not response.startswith(prefix):
            raise Exception(response)
        return response[len(prefix):]''')]),
    ('q-client-split', '', [(C, 'query.split(" ")[0])', 'query.split(" ", 1)[0])')]),
    ('q-client-try', '', [(C, '''        sock.connect((self.host, self.port))
        sock.sendall(query.encode() if modbus_tk.utils.PY3 else query)
''' + RCV + '''        sock.close()
''', '''        try:
            sock.connect((self.host, self.port))
            data = query.encode() if modbus_tk.utils.PY3 else query
            sock.sendall(data)
''' + RCV.replace('\n        ', '\n            ').replace('        response = sock', '            response = sock', 1) + '''        finally:
            sock.close()
''')]),
    ('q-client-create', '', [(C, '''        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.settimeout(self.timeout)
        sock.connect((self.host, self.port))
''', '''        sock = socket.create_connection((self.host, self.port), self.timeout)
''')]),
    ('q-client-format', '', [(C, '"add_block %d %s %d %d %d" % (slave_id, block_name, block_type, starting_address, length)', '"add_block {0} {1} {2} {3} {4}".format(slave_id, block_name, block_type, starting_address, length)')]),
    ('q-sim-comp', '', [(S, SETV, '        values = [int(val) for val in args[4:]]\n')]),
    ('q-sim-map', '', [(S, SETV, '        values = list(map(int, args[4:]))\n')]),
    ('q-sim-unpack', '', [(S, '''        slave_id = int(args[1])
        name = args[2]
        block_type = int(args[3])
        starting_address = int(args[4])
        length = int(args[5])
''', '''        name = args[2]
        slave_id, block_type, starting_address, length = [int(args[i]) for i in (1, 3, 4, 5)]
''')]),
    ('q-sim-join', '', [(S, '''        ret = ""
        for item in the_tuple:
            ret += (" " + str(item))
        return ret[1:]''', '''        return " ".join(str(item) for item in the_tuple)''')]),
    ('q-sim-db', '', [(S, 'self.server.add_slave(slave_id)', 'self.server.get_db().add_slave(slave_id)')]),
    ('q-sim-slave-helper', '', [(S, '''        slave_id = int(args[1])
        slave = self.server.get_slave(slave_id)
        slave.remove_all_blocks()''', '''        self._slave(args).remove_all_blocks()

    def _slave(self, args):
        return self.server.get_slave(int(args[1]))''')]),
    ('q-handler', '', [(S, '''        if modbus_tk.utils.PY3:
            response = response.encode()
        self.request.sendall(response)''', '''        data = response.encode() if modbus_tk.utils.PY3 else response
        self.request.sendall(data)''')]),
    ('q-has', '', [(C, '        if "1" == self._rpc_call(query):\n            return True\n        return False', '        return self._rpc_call(query) == "1"')]),
]

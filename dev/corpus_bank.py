M = 'modbus.py'
T = 'modbus_tcp.py'
R = 'modbus_rtu.py'
S = 'simulator.py'
CORPUS = [
 ('c9-code-default', 'C09', [(M, 'return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())', 'return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code() or defines.ILLEGAL_DATA_VALUE)\n            except struct.error:\n                return struct.pack(">B", function_code | 0x80)')]),
 ('c9-fc-plus', 'C09', [(M, 'return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())', 'return struct.pack(">BB", (function_code + 0x80) & 0xff, excpt.get_exception_code())')]),
 ('c9-fc-sum', 'C09', [(M, 'return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())', 'return struct.pack(">BB", function_code + 0x80, excpt.get_exception_code())')]),
 ('c9-fail-code', 'C09', [(M, 'return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))', 'return query.build_response(struct.pack(">BB", func_code | 0x80, defines.ILLEGAL_FUNCTION))')]),
 ('c9-noframe', 'C09', [(M, 'return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))', 'return struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE)')]),
 ('c9-swallow', 'C09', [(M, '            call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))\n            LOGGER.error("handle request failed: " + str(excpt))\n', '            call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))\n            LOGGER.error("handle request failed: " + str(excpt))\n            if isinstance(excpt, struct.error):\n                return ""\n')]),
 ('c9-empty', 'C09', [(M, '        if len(request_pdu) > 0:\n            (func_code, ) = struct.unpack(">B", request_pdu[0:1])', '        (func_code, ) = struct.unpack(">B", request_pdu[0:1])')]),
 ('c9-keyerror', 'C09', [(M, '                if function_code not in self._fn_code_map:\n                    raise ModbusError(defines.ILLEGAL_FUNCTION)\n', '')]),
 ('c9-range', 'C09', [(M, 'if function_code not in self._fn_code_map:', 'if function_code < 128 and function_code not in self._fn_code_map:')]),
 ('c9-only-modbus', 'C09', [(M, '            call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))\n', '            if not isinstance(excpt, (struct.error, TypeError)):\n                raise\n            call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))\n')]),
 ('c10-missing', 'C10', [(M, '                    if self.error_on_missing_slave:\n                        LOGGER.error("handle request failed: " + str(excpt))\n                    return ""', '                    if self.error_on_missing_slave:\n                        LOGGER.error("handle request failed: " + str(excpt))\n                        raise\n                    return ""')]),
 ('c10-answer', 'C10', [(M, '                # the other slaves must get the request anyway\n                        LOGGER.error("broadcast failed: " + str(excpt))\n                return', '                # the other slaves must get the request anyway\n                        LOGGER.error("broadcast failed: " + str(excpt))\n                return query.build_response(request_pdu)')]),
 ('c10-stop', 'C10', [(M, '                        LOGGER.error("broadcast failed: " + str(excpt))', '                        LOGGER.error("broadcast failed: " + str(excpt))\n                        break')]),
 ('c10-noflag', 'C10', [(M, 'slave.handle_request(request_pdu, broadcast=True)', 'slave.handle_request(request_pdu)')]),
 ('c10-fc4', 'C10', [(M, '                    defines.READ_INPUT_REGISTERS,\n                    defines.READ_HOLDING_REGISTERS\n                )', '                    defines.READ_HOLDING_REGISTERS\n                )')]),
 ('c10-fc16-refused', 'C10', [(M, '                    defines.READ_INPUT_REGISTERS,\n', '                    defines.READ_INPUT_REGISTERS,\n                    defines.WRITE_MULTIPLE_REGISTERS,\n')]),
 ('c10-truthy', 'C10', [(M, '                        slave.handle_request(request_pdu, broadcast=True)', '                        if slave.handle_request(request_pdu, broadcast=True):\n                            break')]),
 ('c10-first', 'C10', [(M, 'slaves = list(self._slaves.values())', 'slaves = list(self._slaves.values())[:2]')]),
 ('c10-fallback', 'C10', [(M, '                try:\n                    slave = self.get_slave(slave_id)\n', '                try:\n                    slave = list(self._slaves.values())[0] if len(self._slaves) == 1 else self.get_slave(slave_id)\n')]),
 ('c14-0', 'C14', [(M, 'if (slave_id <= 0) or (slave_id > 255):', 'if (slave_id < 0) or (slave_id > 255):')]),
 ('c14-256', 'C14', [(M, 'if (slave_id <= 0) or (slave_id > 255):', 'if (slave_id <= 0) or (slave_id > 256):')]),
 ('c14-247', 'C14', [(M, 'if (slave_id <= 0) or (slave_id > 255):', 'if (slave_id <= 0) or (slave_id > 247):')]),
 ('c14-replace', 'C14', [(M, '            if slave_id not in self._slaves:\n                self._slaves[slave_id] = Slave', '            if slave_id not in self._slaves or not self._slaves[slave_id]._blocks:\n                self._slaves[slave_id] = Slave')]),
 ('c14-remove-quiet', 'C14', [(M, '                self._slaves.pop(slave_id)\n            else:\n                raise MissingKeyError("Slave {0} already exists".format(slave_id))', '                self._slaves.pop(slave_id)')]),
 ('c14-keyerr', 'C14', [(M, '            if slave_id in self._slaves:\n                return self._slaves[slave_id]\n            else:\n                raise MissingKeyError("Slave {0} doesn\'t exist".format(slave_id))', '            return self._slaves[slave_id]')]),
 ('c14-rebind', 'C14', [(M, '            self._slaves.clear()', '            self._slaves = {}\n            self._lock = threading.RLock()')][:0] or [(M, '            self._slaves.clear()', '            pass')]),
 ('c14-rtu-db', 'C14', [(R, 'databank = databank if databank else Databank(error_on_missing_slave=error_on_missing_slave)', 'databank = databank if databank and databank._slaves else Databank(error_on_missing_slave=error_on_missing_slave)')]),
 ('c14-composite', 'C14', [(S, '{"databank": self.get_db()}', '{"databank": databank}')]),
 ('c14-srv-remove', 'C14', [(M, '        """remove the slave with the given id"""\n        self._databank.remove_slave(slave_id)', '        """remove the slave with the given id"""\n        self._databank.remove_all_slaves()')]),
 # quiet
 ('q-bank-helper', '', [(M, '''                with self._lock:
                    slaves = list(self._slaves.values())
                for slave in slaves:
                    try:
                        slave.handle_request(request_pdu, broadcast=True)
                    except Exception as excpt:
                        # the other slaves must get the request anyway
                        LOGGER.error("broadcast failed: " + str(excpt))
                return
''', '''                self._broadcast(request_pdu)
                return None
'''), (M, '''    def handle_request(self, query, request):
        """
        when''', '''    def _broadcast(self, pdu):
        with self._lock:
            ids = sorted(self._slaves)
            slaves = [self._slaves[i] for i in ids]
        for slave in slaves:
            try:
                slave.handle_request(pdu, broadcast=True)
            except Exception as excpt:
                LOGGER.error("broadcast failed: %s", excpt)

    def handle_request(self, query, request):
        """
        when''')]),
 ('q-bank-get', '', [(M, '''            if slave_id in self._slaves:
                return self._slaves[slave_id]
            else:
                raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))''', '''            slave = self._slaves.get(slave_id)
            if slave is None:
                raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))
            return slave''')]),
 ('q-bank-try', '', [(M, '''            if slave_id in self._slaves:
                return self._slaves[slave_id]
            else:
                raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))''', '''            try:
                return self._slaves[slave_id]
            except KeyError:
                raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))''')]),
 ('q-bank-add', '', [(M, '''            if (slave_id <= 0) or (slave_id > 255):
                raise Exception("Invalid slave id {0}".format(slave_id))
            if slave_id not in self._slaves:
                self._slaves[slave_id] = Slave(slave_id, unsigned, memory)
                return self._slaves[slave_id]
            else:
                raise DuplicatedKeyError("Slave {0} already exists".format(slave_id))''', '''            if not 0 < slave_id <= 255:
                raise Exception("Invalid slave id {0}".format(slave_id))
            if slave_id in self._slaves:
                raise DuplicatedKeyError("Slave {0} already exists".format(slave_id))
            slave = Slave(slave_id, unsigned, memory)
            self._slaves[slave_id] = slave
            return slave''')]),
 ('q-bank-remove', '', [(M, '''            if slave_id in self._slaves:
                self._slaves.pop(slave_id)
            else:
                raise MissingKeyError("Slave {0} already exists".format(slave_id))''', '''            if self._slaves.pop(slave_id, None) is None:
                raise MissingKeyError("Slave {0} doesn't exist".format(slave_id))''')]),
 ('q-bank-clear', '', [(M, '            self._slaves.clear()', '            for slave_id in list(self._slaves):\n                del self._slaves[slave_id]')]),
 ('q-handle-split', '', [(M, '''        # thread-safe
        with self._data_lock:
            try:
                # get the function code
                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
''', '''        # thread-safe
        with self._data_lock:
            return self._handle_locked(request_pdu, broadcast)

    def _handle_locked(self, request_pdu, broadcast):
            try:
                # get the function code
                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
''')]),
 ('q-exc-code', '', [(M, 'return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())', 'code = excpt.get_exception_code()\n                return bytes(bytearray((function_code | 0x80, code)))')]),
 ('q-cant', '', [(M, '''                if broadcast and (function_code in cant_be_broadcasted):''', '''                if broadcast and any(function_code == code for code in cant_be_broadcasted):''')]),
]

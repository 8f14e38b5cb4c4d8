M = 'modbus.py'
R = 'modbus_rtu.py'
U = 'utils.py'
CORPUS = [
 ('c37-baud', 'C37', [(U, 'if baudrate <= 19200:', 'if baudrate < 19200:')]),
 ('c37-baud2', 'C37', [(U, 'if baudrate <= 19200:', 'if baudrate <= 38400:')]),
 ('c37-max', 'C37', [(U, '''    if baudrate <= 19200:
        return 11.0 / baudrate
    else:
        return 0.0005''', '''    return max(11.0 / baudrate, 0.0005)''')]),
 ('c37-int', 'C37', [(U, 'return 11.0 / baudrate', 'return 11 // baudrate')]),
 ('c37-t0', 'C37', [(R, '            self._t0 = t0\n', '            self._t0 = min(t0, utils.calculate_rtu_inter_char(self._serial.baudrate))\n')]),
 ('c37-swap', 'C37', [(R, "interframe_multiplier = kwargs.pop('interframe_multiplier', 3.5)", "interframe_multiplier = kwargs.pop('interframe_multiplier', None) or kwargs.get('interchar_multiplier', 3.5)")]),
 ('c37-server', 'C37', [(R, '''        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
        self.set_timeout(interframe_multiplier * self._t0)

        self._block''', '''        self._serial.inter_byte_timeout = interchar_multiplier * self._t0
        self._timeout = interframe_multiplier * self._t0

        self._block''')]),
 ('c37-set', 'C37', [(R, '''        Master.set_timeout(self, timeout_in_sec)
        self._serial.timeout = timeout_in_sec
''', '''        Master.set_timeout(self, timeout_in_sec)
        if self._is_opened:
            self._serial.timeout = timeout_in_sec
''')]),
 ('c37-set2', 'C37', [(R, '''        Master.set_timeout(self, timeout_in_sec)
        self._serial.timeout = timeout_in_sec
''', '''        if use_sw_timeout:
            Master.set_timeout(self, timeout_in_sec)
        self._serial.timeout = timeout_in_sec
''')]),
 ('c37-restore', 'C37', [(R, '''                    read_bytes = self._serial.read(1)
                    request += read_bytes
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                self._serial.timeout = self._timeout
''', '''                    read_bytes = self._serial.read(1)
                    request += read_bytes
                    self._serial.timeout = self._timeout
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
''')]),
 ('c37-restore2', 'C37', [(R, 'self._serial.timeout = self._timeout\n', 'self._serial.timeout = RtuServer._timeout\n')]),
 ('c37-bits', 'C37', [(U, '11.0 / baudrate', '10.0 / baudrate')]),
 # quiet
 ('q-37-max', '', [(U, '''    if baudrate <= 19200:
        return 11.0 / baudrate
    else:
        return 0.0005''', '''    if baudrate > 19200:
        return 0.0005
    bits = 11
    return float(bits) / baudrate''')]),
 ('q-37-cond', '', [(U, '''    if baudrate <= 19200:
        return 11.0 / baudrate
    else:
        return 0.0005''', '''    return 11.0 / baudrate if baudrate <= 19200 else 500e-6''')]),
 ('q-37-helper', '', [(R, '''        if t0:
            self._t0 = t0
        else:
            self._t0 = utils.calculate_rtu_inter_char(self._serial.baudrate)
''', '''        self._t0 = t0 or utils.calculate_rtu_inter_char(self._serial.baudrate)
''')]),
 ('q-37-get', '', [(R, "interframe_multiplier = kwargs.pop('interframe_multiplier', 3.5)", "interframe_multiplier = kwargs.get('interframe_multiplier', 3.5)")]),
 ('q-37-run', '', [(R, '''            if self._block_on_first_byte:
                # do a blocking read for first byte
                self._serial.timeout = None
                try:
                    read_bytes = self._serial.read(1)
                    request += read_bytes
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                self._serial.timeout = self._timeout
''', '''            if self._block_on_first_byte:
                # do a blocking read for first byte
                request += self._read_first()
'''), (R, '''    def remove_all''', '''    def remove_all'''), ] if 0 else [(R, '''                self._serial.timeout = None
                try:
                    read_bytes = self._serial.read(1)
                    request += read_bytes
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                self._serial.timeout = self._timeout
''', '''                self._serial.timeout = None
                try:
                    request += self._serial.read(1)
                except Exception as e:
                    self._serial.close()
                    self._serial.open()
                finally:
                    self._serial.timeout = self.get_timeout()
''')]),
]

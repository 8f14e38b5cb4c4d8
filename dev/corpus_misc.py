P = 'pymodbusclient.py'
U = 'utils.py'
RUN = '''        try:
            if self._fcts[0]:
                self._fcts[0](*self._args)
            while self._go.isSet():
                self._fcts[1](*self._args)
        except Exception as excpt:
            LOGGER.error("error: %s", str(excpt))
        finally:
            if self._fcts[2]:
                self._fcts[2](*self._args)
'''
STOP = '''        if self._thread.is_alive():
            self._go.clear()
            self._thread.join()
'''
CORPUS = [
    ('py-swap', 'C35', [(P, 'cst.READ_DISCRETE_INPUTS', 'cst.READ_COILS')]),
    ('py-holding', 'C35', [(P, 'cst.READ_INPUT_REGISTERS', 'cst.READ_HOLDING_REGISTERS')]),
    ('py-num', 'C35', [(P, 'cst.READ_COILS, bit_addr, bit_number))', 'cst.READ_COILS, bit_addr))')]),
    ('py-slice', 'C35', [(P, 'return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))', 'return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))[:bit_number - bit_number % 2 or 1]')]),
    ('py-bool', 'C35', [(P, 'cst.WRITE_SINGLE_COIL, coil, output_value=value)', 'cst.WRITE_SINGLE_COIL, coil, output_value=(value == 1))')]),
    ('py-qty', 'C35', [(P, 'register, output_value=word)', 'register, word)')]),
    ('py-swallow', 'C35', [(P, '''        self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
        return True''', '''        try:
            self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
        except ValueError:
            return False
        return True''')]),
    ('py-slave', 'C35', [(P, 'self.client.execute(1, cst.READ_INPUT', 'self.client.execute(0, cst.READ_INPUT')]),
    ('py-close', 'C35', [(P, '        self.client.close()\n', '')]),
    ('py-isopen', 'C35', [(P, 'return self.client._is_opened', 'return self.client is not None')]),
    ('py-timeout', 'C35', [(P, ', timeout_in_sec=timeout', '')]),
    ('q-py-comp', '', [(P, 'return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))', 'values = self.client.execute(1, cst.READ_COILS, bit_addr, quantity_of_x=bit_number)\n        return [value for value in values]')]),
    ('q-py-helper', '', [(P, 'return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))', 'return self._read(cst.READ_COILS, bit_addr, bit_number)\n\n    def _read(self, function, address, count):\n        return list(self.client.execute(1, function, address, count))')]),
    # C36
    ('w-finally', 'C36', [(U, RUN, RUN.replace('        finally:\n            if self._fcts[2]:\n                self._fcts[2](*self._args)', '        if self._fcts[2]:\n            self._fcts[2](*self._args)'))]),
    ('w-init-out', 'C36', [(U, RUN, '''        if self._fcts[0]:
            self._fcts[0](*self._args)
        try:
            while self._go.isSet():
                self._fcts[1](*self._args)
        except Exception as excpt:
            LOGGER.error("error: %s", str(excpt))
        finally:
            if self._fcts[2]:
                self._fcts[2](*self._args)
''')]),
    ('w-narrow', 'C36', [(U, 'except Exception as excpt:\n            LOGGER.error("error: %s", str(excpt))\n        finally', 'except (ValueError, IOError) as excpt:\n            LOGGER.error("error: %s", str(excpt))\n        finally')]),
    ('w-init-loop', 'C36', [(U, '''            if self._fcts[0]:
                self._fcts[0](*self._args)
            while self._go.isSet():
''', '''            while self._go.isSet():
                if self._fcts[0]:
                    self._fcts[0](*self._args)
''')]),
    ('w-dowhile', 'C36', [(U, '''            while self._go.isSet():
                self._fcts[1](*self._args)
''', '''            while True:
                self._fcts[1](*self._args)
                if not self._go.isSet():
                    break
''')]),
    ('w-exit-args', 'C36', [(U, '                self._fcts[2](*self._args)', '                self._fcts[2]()')]),
    ('w-exit-twice', 'C36', [(U, 'LOGGER.error("error: %s", str(excpt))\n        finally', 'LOGGER.error("error: %s", str(excpt))\n            if self._fcts[2]:\n                self._fcts[2](*self._args)\n        finally')]),
    ('w-stop-timeout', 'C36', [(U, 'self._thread.join()', 'self._thread.join(1.0)')]),
    ('w-stop-noclear', 'C36', [(U, '            self._go.clear()\n            self._thread.join()', '            self._thread.join()')]),
    ('w-stop-order', 'C36', [(U, '            self._go.clear()\n            self._thread.join()', '            self._thread.join()\n            self._go.clear()')]),
    ('w-stop-nojoin', 'C36', [(U, '            self._go.clear()\n            self._thread.join()', '            self._go.clear()')]),
    ('w-stop-always', 'C36', [(U, STOP, '        self._go.clear()\n        self._thread.join()\n')]),
    ('w-set', 'C36', [(U, '        self._go.set()\n        self._thread.start()', '        self._thread.start()')]),
    ('w-continue', 'C36', [(U, RUN, '''        try:
            if self._fcts[0]:
                self._fcts[0](*self._args)
            while self._go.isSet():
                try:
                    self._fcts[1](*self._args)
                except KeyError as excpt:
                    LOGGER.error("error: %s", str(excpt))
        except Exception as excpt:
            LOGGER.error("error: %s", str(excpt))
        finally:
            if self._fcts[2]:
                self._fcts[2](*self._args)
''')]),
    ('q-w-names', '', [(U, RUN, '''        init_fct, main_fct, exit_fct = self._fcts
        try:
            if init_fct is not None:
                init_fct(*self._args)
            while self._go.is_set():
                main_fct(*self._args)
        except Exception as excpt:
            LOGGER.error("error: %s", excpt)
        finally:
            if exit_fct is not None:
                exit_fct(*self._args)
''')]),
    ('q-w-helper', '', [(U, RUN, '''        try:
            self._call(0)
            while self._go.isSet():
                self._call(1)
        except Exception as excpt:
            LOGGER.error("error: %s", str(excpt))
        finally:
            self._call(2)

    def _call(self, index):
        function = self._fcts[index]
        if function:
            function(*self._args)
''')]),
    ('q-w-stop', '', [(U, STOP, '        if not self._thread.is_alive():\n            return\n        self._go.clear()\n        self._thread.join()\n')]),
]

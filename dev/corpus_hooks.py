H = 'hooks.py'
M = 'modbus.py'
T = 'modbus_tcp.py'
R = 'modbus_rtu.py'
O = 'modbus_rtu_over_tcp.py'
INST = '''        try:
            _HOOKS[name].append(fct)
        except KeyError:
            _HOOKS[name] = [fct]
'''
UN = '''        if fct:
            _HOOKS[name].remove(fct)
        else:
            _HOOKS.pop(name, None)
'''
CALL = '''    with _LOCK:
        fcts = list(_HOOKS.get(name, ()))
    # the lock is not held while the hooks are running: they may be long or use other locks
    for fct in fcts:
        retval = fct(args)
        if retval is not None:
            return retval
    return None
'''
CORPUS = [
    # ---- C31
    ('inst-front', 'C31', [(H, INST, INST.replace('.append(fct)', '.insert(0, fct)'))]),
    ('inst-replace', 'C31', [(H, INST, '        _HOOKS[name] = [fct]\n')]),
    ('un-pop', 'C31', [(H, UN, UN.replace('_HOOKS[name].remove(fct)', '_HOOKS[name].pop()'))]),
    ('un-pop0', 'C31', [(H, UN, UN.replace('_HOOKS[name].remove(fct)', '_HOOKS[name].pop(0)'))]),
    ('un-all', 'C31', [(H, UN, '        _HOOKS.pop(name, None)\n')]),
    ('un-none-last', 'C31', [(H, UN, UN.replace('_HOOKS.pop(name, None)', '_HOOKS[name].pop()'))]),
    ('un-clear', 'C31', [(H, UN, UN.replace('_HOOKS.pop(name, None)', '_HOOKS.clear()'))]),
    ('un-del', 'C31', [(H, UN, UN.replace('_HOOKS.pop(name, None)', 'del _HOOKS[name]'))]),
    ('un-slice', 'C31', [(H, UN, UN.replace('_HOOKS[name].remove(fct)', '_HOOKS[name] = _HOOKS[name][:_HOOKS[name].index(fct)]'))]),
    ('call-live', 'C31', [(H, 'fcts = list(_HOOKS.get(name, ()))', 'fcts = _HOOKS.get(name, ())')]),
    ('call-live2', 'C31', [(H, CALL, CALL.replace('list(_HOOKS.get(name, ()))', '_HOOKS.get(name) or []'))]),
    ('call-truthy', 'C31', [(H, 'if retval is not None:', 'if retval:')]),
    ('call-last', 'C31', [(H, CALL, CALL.replace('    for fct', '    result = None\n    for fct').replace('            return retval\n    return None', '            result = retval\n    return result'))]),
    ('call-swallow', 'C31', [(H, '        retval = fct(args)\n', '        try:\n            retval = fct(args)\n        except TypeError:\n            retval = None\n')]),
    ('call-star', 'C31', [(H, 'fct(args)', 'fct(*args)')]),
    ('call-first', 'C31', [(H, CALL, CALL.replace('            return retval\n    return None', '            return retval\n        return None'))]),
    ('call-reversed', 'C31', [(H, 'for fct in fcts', 'for fct in reversed(fcts)')]),
    ('call-keyerror', 'C31', [(H, '_HOOKS.get(name, ())', '_HOOKS[name]')]),
    ('call-locked-raise', 'C31', [(H, CALL, '''    _LOCK.acquire()
    fcts = list(_HOOKS.get(name, ()))
    for fct in fcts:
        retval = fct(args)
        if retval is not None:
            _LOCK.release()
            return retval
    _LOCK.release()
    return None
''')]),
    ('q-inst-setdefault', '', [(H, INST, '        _HOOKS.setdefault(name, []).append(fct)\n')]),
    ('q-inst-copy', '', [(H, INST, '        _HOOKS[name] = _HOOKS.get(name, []) + [fct]\n')]),
    ('q-un-filter', '', [(H, UN, '''        if fct is None:
            _HOOKS[name] = []
        else:
            _HOOKS[name] = [f for f in _HOOKS[name] if f != fct]
''')]),
    ('q-call-tuple', '', [(H, 'fcts = list(_HOOKS.get(name, ()))', 'fcts = tuple(_HOOKS.get(name) or [])')]),
    ('q-call-slice', '', [(H, 'fcts = list(_HOOKS.get(name, ()))', 'fcts = _HOOKS.get(name, [])[:]')]),
    ('q-call-in', '', [(H, 'fcts = list(_HOOKS.get(name, ()))', 'fcts = []\n        if name in _HOOKS:\n            fcts.extend(_HOOKS[name])')]),
    ('q-call-index', '', [(H, '    for fct in fcts:\n        retval = fct(args)\n', '    for index in range(len(fcts)):\n        retval = fcts[index](args)\n')]),
    ('q-call-break', '', [(H, CALL, '''    with _LOCK:
        fcts = list(_HOOKS.get(name, ()))
    result = None
    for fct in fcts:
        result = fct(args)
        if result is not None:
            break
    return result
''')]),
    # ---- C32
    ('ms-before-ignored', 'C32', [(M, '''        retval = call_hooks("modbus.Master.before_send", (self, request))
        if retval is not None:
            request = retval
''', '''        call_hooks("modbus.Master.before_send", (self, request))
''')]),
    ('ms-after-recv-none', 'C32', [(M, '''            retval = call_hooks("modbus.Master.after_recv", (self, response))
''', '''            retval = call_hooks("modbus.Master.after_recv", (self, request))
''')]),
    ('ms-after-send-late', 'C32', [(M, '''        call_hooks("modbus.Master.after_send", (self, ))
''', ''), (M, '''        self._send(request)
''', '''        call_hooks("modbus.Master.after_send", (self, ))
        self._send(request)
''')]),
    ('tcp-master-sent-old', 'C32', [(T, 'self._sock.sendall(request)', 'self._sock.sendall(data)'), (T, '        retval = call_hooks("modbus_tcp.TcpMaster.before_send"', '        data = request\n        retval = call_hooks("modbus_tcp.TcpMaster.before_send"')]),
    ('rot-name', 'C32', [(O, '"modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"', '"modbus_tcp.TcpMaster.after_recv"')]),
    ('rot-retval', 'C32', [(O, '        retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))\n        if retval is not None:\n            return retval\n', '        call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))\n')]),
    ('rtu-after-close', 'C32', [(R, '            call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))\n', '')]),
    ('tcp-before-close', 'C32', [(T, '''            call_hooks("modbus_tcp.TcpMaster.before_close", (self, ))
            self._sock.close()
''', '''            self._sock.close()
            call_hooks("modbus_tcp.TcpMaster.before_close", (self, ))
''')]),
    ('slave-discrete-name', 'C32', [(M, '"modbus.Slave.handle_read_discrete_inputs_request"', '"modbus.Slave.handle_read_coils_request"')]),
    ('slave-mask-missing', 'C32', [(M, '        call_hooks("modbus.Slave.handle_mask_write_register_request", (self, request_pdu))\n', '')]),
    ('slave-bcast-missing', 'C32', [(M, '                        call_hooks("modbus.Slave.on_handle_broadcast", (self, response_pdu))\n', '')]),
    ('slave-exc-fc', 'C32', [(M, '(self, function_code, excpt))\n                return', '(self, function_code | 0x80, excpt))\n                return')]),
    ('slave-hook-late', 'C32', [(M, '''                retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
                if retval is not None:
                    return retval

                # check if the function code is valid. If not returns error response
                if function_code not in self._fn_code_map:
                    raise ModbusError(defines.ILLEGAL_FUNCTION)
''', '''                # check if the function code is valid. If not returns error response
                if function_code not in self._fn_code_map:
                    raise ModbusError(defines.ILLEGAL_FUNCTION)

                retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
                if retval is not None:
                    return retval
''')]),
    ('slave-hook-ret', 'C32', [(M, '''                retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
                if retval is not None:
''', '''                retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
                if retval is True:
''')]),
    ('setitem-after', 'C32', [(M, '''        call_hooks("modbus.ModbusBlock.setitem", (self, item, value))
''', '''        if isinstance(item, slice):
            call_hooks("modbus.ModbusBlock.setitem", (self, item, value))
''')]),
    ('srv-exc-missing', 'C32', [(M, '            call_hooks("modbus.Server.on_exception", (self, excpt))\n', '')]),
    ('db-error-arg', 'C32', [(M, 'call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))', 'call_hooks("modbus.Databank.on_error", (self, excpt, request))')]),
    ('srv-after-ignored', 'C32', [(M, '''        if retval is not None:
            response = retval

        if response and self._verbose''', '''        if response and self._verbose''')]),
    ('tcps-ondisc', 'C32', [(T, '                        call_hooks("modbus_tcp.TcpServer.on_disconnect", (self, sock))\n', '')]),
    ('tcps-after-send-before', 'C32', [(T, '''                                sock.sendall(response)
                                call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
''', '''                                call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                                sock.sendall(response)
''')]),
    ('tcps-bs-old', 'C32', [(T, '''                                if retval is not None:
                                    response = retval
                                sock.sendall(response)
''', '''                                if retval is not None and not response:
                                    response = retval
                                sock.sendall(response)
''')]),
    ('rtus-after-read-ign', 'C32', [(R, '''                if retval is not None:
                    request = retval

                response = self._handle(request)
''', '''                response = self._handle(request)
''')]),
    ('rtus-on-error', 'C32', [(R, 'call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))', 'call_hooks("modbus_rtu.RtuServer.on_error", (excpt, self))')]),
    ('rtus-verbose-only', 'C32', [(R, '                call_hooks("modbus_rtu.RtuServer.after_write", (self, response))\n', '                if self._verbose:\n                    call_hooks("modbus_rtu.RtuServer.after_write", (self, response))\n')]),
    ('q-ms-helper', '', [(M, '''        retval = call_hooks("modbus.Master.before_send", (self, request))
        if retval is not None:
            request = retval
''', '''        request = self._filtered("modbus.Master.before_send", request)
'''), (M, '''    def set_verbose(self, verbose):
        """print some more log prints for debug purpose"""
        self._verbose = verbose

    def open(self):''', '''    def _filtered(self, name, data):
        changed = call_hooks(name, (self, data))
        return data if changed is None else changed

    def set_verbose(self, verbose):
        """print some more log prints for debug purpose"""
        self._verbose = verbose

    def open(self):''')]),
    ('q-slave-name', '', [(M, 'call_hooks("modbus.Slave.handle_read_coils_request", (self, request_pdu))', 'hook_name = "modbus.Slave.handle_%s_request" % "read_coils"\n        call_hooks(hook_name, (self, request_pdu))')]),
    ('q-slave-exc', '', [(M, '''                call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
                return struct''', '''                event = (self, function_code, excpt)
                call_hooks(name="modbus.Slave.on_exception", args=event)
                return struct''')]),
    ('q-tcps-local', '', [(T, '                                sock.sendall(response)\n                                call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))', '                                data = bytes(response)\n                                sock.sendall(data)\n                                call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, data))')]),
]

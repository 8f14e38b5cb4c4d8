from defs import D
T = 'modbus_tcp.py'
M = 'modbus.py'
U = 'utils.py'
P = 'C43'
LB = '''        log += str(ord(i) if PY2 else i) + "-"
'''
PR = '''        try:
            print(self.format(record))
        except Exception:
            # as any other handler: a failing log must never break the application
            self.handleError(record)
'''
CORPUS = [
 ('console-raises', P, [(U, PR, '        print(self.format(record))\n')]),
 ('console-format', P, [(U, PR, '        text = self.format(record)\n' + PR.replace('self.format(record)', 'text'))]),
 ('console-oserror', P, [(U, PR, PR.replace('Exception', 'IOError'))]),
 ('udp-send', P, [(U, '            self._sock.sendto(data, self._dest)\n        except Exception:\n', '        except Exception:\n            return\n        try:\n            self._sock.sendto(data, self._dest)\n        except socket.timeout:\n')]),
 ('udp-raise', P, [(U, '''            self._sock.sendto(data, self._dest)
        except Exception:
            # as any other handler: a failing log must never break the application
            self.handleError(record)
''', '''            self._sock.sendto(data, self._dest)
        except Exception:
            self.handleError(record)
            raise
''')]),
 ('logbuf-ord', P, [(U, LB, LB.replace('ord(i) if PY2 else i', 'ord(i)'))]),
 ('logbuf-chr', P, [(U, LB, '        log += "%x-" % i\n')]),
 ('logbuf-decode', P, [(U, '    for i in buff:\n', '    for i in bytearray(buff.decode("utf-8").encode("utf-8")):\n')]),
 ('logbuf-ascii', P, [(U, '    for i in buff:\n', '    for i in bytearray(buff.decode("ascii"), "ascii"):\n')]),
 ('logbuf-first', P, [(U, '    log = prefix\n', '    log = prefix\n    if buff[0] == 0:\n        log += ""\n')]),
 ('verbose-text', P, [(M, '            LOGGER.debug(get_log_buffer("-> ", request))\n', '            request = get_log_buffer("-> ", request)\n            LOGGER.debug(request)\n')]),
 ('verbose-else', P, [(M, '            LOGGER.debug(get_log_buffer("-> ", request))\n        self._send(request)\n', '            LOGGER.debug(get_log_buffer("-> ", request))\n        else:\n            self._send(request)\n')]),
 ('verbose-return', P, [(M, '        if response and self._verbose:\n            LOGGER.debug(get_log_buffer("<--", response))\n        return response', '        if self._verbose:\n            LOGGER.debug(get_log_buffer("<--", response))\n        return response')]),
 ('verbose-indent', P, [(M, '            LOGGER.debug(get_log_buffer("<--", response))\n        return response', '            LOGGER.debug(get_log_buffer("<--", response))\n            return response')]),
 ('verbose-nolog', P, [(M, '            LOGGER.debug(get_log_buffer("-> ", request))\n', '            pass\n')]),
 ('verbose-parse', P, [(M, '                LOGGER.debug(get_log_buffer("<- ", response))\n', '                LOGGER.debug(get_log_buffer("<- ", response))\n                struct.unpack(">B", response[8:9])\n')]),
 ('verbose-wrong', P, [(M, '                LOGGER.debug(get_log_buffer("<- ", response))\n', '                LOGGER.debug(get_log_buffer("<- ", request))\n')]),
 ('q-logbuf', '', [D(U, 'get_log_buffer', '''
def get_log_buffer(prefix, buff):
    """Format binary data into a string for debug purpose"""
    return prefix + "-".join([str(i) for i in bytearray(buff if buff else b"")])
''')]),
 ('q-console', '', [(U, PR, '''        self._out(record)

    def _out(self, record):
        try:
            text = self.format(record)
            print(text)
        except Exception as ex:
            self.handleError(record)
''')]),
 ('q-stream', '', [D(U, 'ConsoleHandler', '''
class ConsoleHandler(logging.StreamHandler):
    """This class is a logger handler. It prints on the console"""
''')]),
 ('q-verbose', '', [(M, '''        if response and self._verbose:
            LOGGER.debug(get_log_buffer("<--", response))
        return response''', '''        self._log_packet("<--", response)
        return response

    def _log_packet(self, prefix, data):
        if not self._verbose or not data:
            return
        LOGGER.debug(get_log_buffer(prefix, data))'''), (M, '''        if self._verbose:
            LOGGER.debug(get_log_buffer("-->", request))
''', '''        self._log_packet("-->", request)
''')]),
 ('q-lazy', '', [(M, '            LOGGER.debug(get_log_buffer("-> ", request))\n', '            LOGGER.debug("%s", get_log_buffer("-> ", request))\n')]),
]

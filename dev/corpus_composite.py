from defs import D
S = 'simulator.py'
P = 'C44'
RUN = '''            if self._check_console_input(): #if something to read on the console
                cmd = sys.stdin.readline() #read it
                self.inq.put(cmd) #dispatch it tpo the server
                response = self.outq.get(timeout=2.0) #wait for an answer
                sys.stdout.write(response) #write the answer on the console
'''
CORPUS = [
 ('verbose-first', P, [(S, '            srv.set_verbose(verbose)\n', '            srv.set_verbose(verbose)\n            break\n')]),
 ('verbose-true', P, [(S, '            srv.set_verbose(verbose)\n', '            srv.set_verbose(True)\n')]),
 ('start-skip', P, [(S, '            srv.start()\n', '            if srv is not self._servers[0] or len(self._servers) < 4:\n                srv.start()\n')]),
 ('stop-nothing', P, [(S, '            srv.stop()\n', '            srv.set_verbose(False)\n')]),
 ('stop-reads-base', P, [(S, '        """stop the server. It doesn\'t handle request anymore"""\n        for srv in self._servers:\n            srv.stop()\n', '        """stop the server"""\n        super(CompositeServer, self).stop()\n')]),
 ('own-bank', P, [(S, '**{"databank": self.get_db()}', '**{"databank": modbus.Databank()}')]),
 ('given-bank', P, [(S, 'super(CompositeServer, self).__init__(databank)', 'super(CompositeServer, self).__init__()')]),
 ('no-args', P, [(S, 'the_class(*the_args, **', 'the_class(*list_of_server_args[0], **')]),
 ('generator', P, [(S, '        self._servers = [\n', '        self._servers = (\n'), (S, '            if issubclass(the_class, modbus.Server)\n        ]', '            if issubclass(the_class, modbus.Server)\n        )')]),
 ('start-order', P, [(S, '''        self.rpc.start()

        LOGGER.info("modbus_tk.simulator is running...")

        self._handle()
''', '''        LOGGER.info("modbus_tk.simulator is running...")

        self._handle()
        self.rpc.start()
''')]),
 ('start-no-console', P, [(S, '        self.console.start()\n', '        self.console.run()\n')]),
 ('start-no-server', P, [(S, '        self.server.start()\n        self.console', '        self.console')]),
 ('close-fails', P, [(S, '''        try:
            self.rpc_server.shutdown()
            self.join(1.0)
        except Exception:
            LOGGER.warning("An error occurred while closing RPC interface")
''', '''        self.rpc_server.shutdown()
        self.join(1.0)
''')]),
 ('close-no-server', P, [(S, '        self.rpc.close()\n        self.server.stop()\n', '        self.rpc.close()\n        self.server.remove_all_slaves()\n')]),
 ('close-no-rpc', P, [(S, '            self.rpc_server.shutdown()\n', '')]),
 ('close-no-console', P, [(S, '        self._go.clear()\n        self.join(1.0)', '        self.join(1.0)')]),
 ('console-once', P, [(S, RUN, RUN + '                break\n')]),
 ('console-twice', P, [(S, RUN, RUN.replace('put(cmd) #dispatch it tpo the server', 'put(cmd)\n                self.inq.put(cmd)'))]),
 ('console-noanswer', P, [(S, RUN, RUN.replace('                sys.stdout.write(response) #write the answer on the console\n', ''))]),
 ('console-late', P, [(S, RUN, RUN.replace('                response = self.outq.get(timeout=2.0) #wait for an answer\n', '').replace('write(response)', 'write(self.answer())')), (S, '    def close(self):\n        """terminates the thread"""\n', '''    def answer(self):
        try:
            return self.outq.get_nowait()
        except queue.Empty:
            return ""

    def close(self):
        """terminates the thread"""
''')]),
 ('console-order', P, [(S, RUN, RUN.replace('                self.inq.put(cmd) #dispatch it tpo the server\n', '').replace('#wait for an answer\n', '\n                self.inq.put(cmd)\n'))]),
 ('console-block', P, [(S, RUN, RUN.replace('if self._check_console_input(): #if something', 'if self._check_console_input() or True: #if'))]),
 ('console-ready', P, [(S, '            if len(inputready) > 0:\n', '            if len(abcd) == 0:\n')]),
 ('console-forever', P, [(S, '        while self._go.isSet(): #while app is running\n', '        while True:\n')]),
 ('q-loop', '', [(S, '        for srv in self._servers:\n            srv.start()\n', '        self._each("start")\n\n    def _each(self, name):\n        for srv in self._servers:\n            getattr(srv, name)()\n'), (S, '        for srv in self._servers:\n            srv.stop()\n', '        self._each("stop")\n')]),
 ('q-ctor', '', [(S, '''        self._servers = [
            the_class(*the_args, **{"databank": self.get_db()})
            for the_class, the_args in zip(list_of_server_classes, list_of_server_args)
            if issubclass(the_class, modbus.Server)
        ]
''', '''        self._servers = []
        bank = self._databank
        for i, the_class in enumerate(list_of_server_classes):
            if not issubclass(the_class, modbus.Server):
                continue
            server = the_class(*list_of_server_args[i], databank=bank)
            self._servers.append(server)
''')]),
 ('q-start', '', [(S, '''        self.server.start()
        self.console.start()
        self.rpc.start()
''', '''        for part in (self.server, self.rpc, self.console):
            part.start()
''')]),
 ('q-console', '', [(S, '''        while self._go.isSet(): #while app is running
''' + RUN, '''        while self._go.is_set():
            if not self._check_console_input():
                continue
            self._one(sys.stdin.readline())

    def _one(self, line):
        self.inq.put(line.rstrip("\\n"))
        print(self.outq.get(timeout=2.0))
''')]),
 ('q-console2', '', [(S, '''            (inputready, abcd, efgh) = select.select([sys.stdin], [], [], 0.5)
            if len(inputready) > 0:
                return True
''', '''            return bool(select.select([sys.stdin], [], [], 0.5)[0])
''')]),
]

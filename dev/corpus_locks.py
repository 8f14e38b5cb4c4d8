M = 'modbus.py'
T = 'modbus_tcp.py'
R = 'modbus_rtu.py'
S = 'simulator.py'
H = 'hooks.py'
U = 'utils.py'
CORPUS = [
 ('c15-get-nolock', 'C15', [(M, '''        # thread safe
        with self._data_lock:
            block = self._get_block(block_name)

            # the block has been found
            # check that it doesn't write out of the block
            offset = address - block.starting_address
''', '''        # thread safe
        if True:
            block = self._get_block(block_name)

            # the block has been found
            # check that it doesn't write out of the block
            offset = address - block.starting_address
''')]),
 ('c15-get-two', 'C15', [(M, '''            # returns the values
            if size == 1:
                return tuple([block[offset], ])
            else:
                return tuple(block[offset:offset+size])''', '''        # returns the values
        with self._data_lock:
            if size == 1:
                return tuple([block[offset], ])
            else:
                return tuple(block[offset:offset+size])''')]),
 ('c15-rm-find', 'C15', [(M, '''        # thread safe
        with self._data_lock:
            block = self._get_block(block_name)

            # the block has been found: remove''', '''        # thread safe
        block = self._get_block(block_name)
        with self._data_lock:

            # the block has been found: remove''')]),
 ('c15-newlock', 'C15', [(M, '''        # thread safe
        with self._data_lock:
            self._blocks.clear()''', '''        # thread safe
        with threading.RLock():
            self._blocks.clear()''')]),
 ('c15-otherlock', 'C15', [(M, '''        self._data_lock = threading.RLock()
''', '''        self._data_lock = threading.RLock()
        self._block_lock = threading.RLock()
'''), (M, '''        """Add a new block identified by its name"""
        # thread-safe
        with self._data_lock:''', '''        """Add a new block identified by its name"""
        # thread-safe
        with self._block_lock:''')]),
 ('c15-release-hook', 'C15', [(M, '''                # execute the corresponding function
                response_pdu = self._fn_code_map[function_code](request_pdu)
''', '''                # execute the corresponding function
                self._data_lock.release()
                try:
                    response_pdu = self._fn_code_map[function_code](request_pdu)
                finally:
                    self._data_lock.acquire()
''')]),
 ('c15-gen', 'C15', [(M, '''                return tuple(block[offset:offset+size])''', '''                pass
        return tuple(block[offset + i] for i in range(size))''')]),
 ('c16-slaves-live', 'C16', [(M, 'slaves = list(self._slaves.values())', 'slaves = self._slaves.values()')]),
 ('c16-get-nolock', 'C16', [(M, '''        with self._lock:
            if slave_id in self._slaves:
                return self._slaves[slave_id]''', '''        if True:
            if slave_id in self._slaves:
                return self._slaves[slave_id]''')]),
 ('c16-add-check', 'C16', [(M, '''        with self._lock:
            if (slave_id <= 0) or (slave_id > 255):
                raise Exception("Invalid slave id {0}".format(slave_id))
            if slave_id not in self._slaves:
                self._slaves[slave_id] = Slave(slave_id, unsigned, memory)
                return self._slaves[slave_id]
            else:
                raise DuplicatedKeyError("Slave {0} already exists".format(slave_id))''', '''        if (slave_id <= 0) or (slave_id > 255):
            raise Exception("Invalid slave id {0}".format(slave_id))
        with self._lock:
            if slave_id in self._slaves:
                raise DuplicatedKeyError("Slave {0} already exists".format(slave_id))
        slave = Slave(slave_id, unsigned, memory)
        with self._lock:
            self._slaves[slave_id] = slave
            return slave''')]),
 ('c16-hooks-live', 'C16', [(H, 'fcts = list(_HOOKS.get(name, ()))', 'fcts = _HOOKS.get(name, ())')]),
 ('c16-hooks-nolock', 'C16', [(H, '''    with _LOCK:
        fcts = list(_HOOKS.get(name, ()))''', '''    if name not in _HOOKS:
        return None
    with _LOCK:
        fcts = list(_HOOKS.get(name, ()))''')]),
 ('c16-uninstall', 'C16', [(H, '''            _HOOKS[name].remove(fct)
        else:
            _HOOKS.pop(name, None)''', '''            _HOOKS[name].remove(fct)
            return
    _HOOKS.pop(name, None)''')]),
 ('c16-install-two', 'C16', [(H, '''    with _LOCK:
        try:
            _HOOKS[name].append(fct)
        except KeyError:
            _HOOKS[name] = [fct]''', '''    with _LOCK:
        fcts = _HOOKS.setdefault(name, [])
    with _LOCK:
        fcts.append(fct)''')]),
 ('c16-tid', 'C16', [(T, '''    @threadsafe_function
    def _get_transaction_id(self):''', '''    def _get_transaction_id(self):''')]),
 ('c16-tid-after', 'C16', [(T, '''        return TcpQuery._last_transaction_id

    def build_request''', '''
    def build_request'''), (T, '''        self._request_mbap.transaction_id = self._get_transaction_id()''', '''        self._get_transaction_id()
        self._request_mbap.transaction_id = TcpQuery._last_transaction_id''')]),
 ('c16-tid-lock', 'C16', [(U, '''    lock = threading.RLock()

    def new(*args, **kwargs):''', '''    def new(*args, **kwargs):'''), (U, '''        threadsafe = kwargs.pop('threadsafe', True)
''', '''        threadsafe = kwargs.pop('threadsafe', True)
        lock = threading.RLock()
''')]),
 ('c17-hook-locked', 'C17', [(H, '''    # the lock is not held while the hooks are running: they may be long or use other locks
    for fct in fcts:
        retval = fct(args)
        if retval is not None:
            return retval
    return None''', '''        for fct in fcts:
            retval = fct(args)
            if retval is not None:
                return retval
        return None''')]),
 ('c17-bcast-locked', 'C17', [(M, '''                    slaves = list(self._slaves.values())
                for slave in slaves:
                    try:
                        slave.handle_request(request_pdu, broadcast=True)
                    except Exception as excpt:
                        # the other slaves must get the request anyway
                        LOGGER.error("broadcast failed: " + str(excpt))
                return''', '''                    for slave in self._slaves.values():
                        try:
                            slave.handle_request(request_pdu, broadcast=True)
                        except Exception as excpt:
                            # the other slaves must get the request anyway
                            LOGGER.error("broadcast failed: " + str(excpt))
                return'''), (M, '''        self._data_lock = threading.RLock()
''', '''        self._data_lock = threading.RLock()
        self.bank = None
'''), (M, '''                self._slaves[slave_id] = Slave(slave_id, unsigned, memory)
''', '''                self._slaves[slave_id] = Slave(slave_id, unsigned, memory)
                self._slaves[slave_id].bank = self
'''), (M, '''                retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
''', '''                retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
                if self.bank is not None:
                    self.bank.get_slave(self._id)
''')]),
 ('c17-noret', 'C17', [(U, '''        try:
            ret = fcn(*args, **kwargs)
        except Exception as excpt:
            raise excpt
        finally:
            if threadsafe:
                lock.release()
        return ret''', '''        ret = fcn(*args, **kwargs)
        if threadsafe:
            lock.release()
        return ret''')]),
 ('c17-plainlock', 'C17', [(M, 'self._data_lock = threading.RLock()', 'self._data_lock = threading.Lock()'), (M, '''            block = self._get_block(block_name)

            # the block has been found: remove''', '''            if not self.get_values(block_name, self._blocks[block_name][1]):
                return
            block = self._get_block(block_name)

            # the block has been found: remove''')]),
 ('c17-acquire', 'C17', [(M, '''        # thread safe
        with self._data_lock:
            self._blocks.clear()
            for key in self._memory:
                self._memory[key] = []''', '''        # thread safe
        self._data_lock.acquire()
        self._blocks.clear()
        for key in self._memory:
            self._memory[key] = []
        self._data_lock.release()''')][:0] or [(M, '''        with self._data_lock:
            block = self._get_block(block_name)

            # the block has been found: remove it from the shortcut
            block_type = self._blocks.pop(block_name)[0]
            self._memory[block_type].remove(block)''', '''        self._data_lock.acquire()
        block = self._get_block(block_name)

        # the block has been found: remove it from the shortcut
        block_type = self._blocks.pop(block_name)[0]
        self._memory[block_type].remove(block)
        self._data_lock.release()''')]),
 # quiet
 ('q-acquire', '', [(M, '''        # thread safe
        with self._data_lock:
            self._blocks.clear()
            for key in self._memory:
                self._memory[key] = []''', '''        # thread safe
        self._data_lock.acquire()
        try:
            self._blocks.clear()
            for key in self._memory:
                self._memory[key] = []
        finally:
            self._data_lock.release()''')]),
 ('q-hooks-copy', '', [(H, '''        fcts = list(_HOOKS.get(name, ()))''', '''        fcts = tuple(_HOOKS[name]) if name in _HOOKS else ()''')]),
 ('q-hooks-setdefault', '', [(H, '''        try:
            _HOOKS[name].append(fct)
        except KeyError:
            _HOOKS[name] = [fct]''', '''        _HOOKS.setdefault(name, []).append(fct)''')]),
 ('q-tid-with', '', [(T, '''    @threadsafe_function
    def _get_transaction_id(self):
        """returns an identifier for the query"""
        if TcpQuery._last_transaction_id < 0xffff:
            TcpQuery._last_transaction_id += 1
        else:
            TcpQuery._last_transaction_id = 0
        return TcpQuery._last_transaction_id
''', '''    _tid_lock = threading.Lock()

    def _get_transaction_id(self):
        """returns an identifier for the query"""
        with TcpQuery._tid_lock:
            TcpQuery._last_transaction_id = (TcpQuery._last_transaction_id + 1) & 0xffff
            return TcpQuery._last_transaction_id
'''), (T, 'import socket\n', 'import socket\nimport threading\n')]),
 ('q-threadsafe', '', [(U, '''        if threadsafe:
            lock.acquire()
        try:
            ret = fcn(*args, **kwargs)
        except Exception as excpt:
            raise excpt
        finally:
            if threadsafe:
                lock.release()
        return ret''', '''        if not threadsafe:
            return fcn(*args, **kwargs)
        with lock:
            return fcn(*args, **kwargs)''')]),
 ('q-get-snap', '', [(M, '''            # returns the values
            if size == 1:
                return tuple([block[offset], ])
            else:
                return tuple(block[offset:offset+size])''', '''            # returns the values
            values = block[offset:offset+size]
        return tuple(values)''')]),
 ('q-size-check-out', '', [(M, '''        """Add a new block identified by its name"""
        # thread-safe
        with self._data_lock:
            if size <= 0:
                raise InvalidArgumentError("size must be a positive number")
''', '''        """Add a new block identified by its name"""
        if size <= 0:
            raise InvalidArgumentError("size must be a positive number")

        # thread-safe
        with self._data_lock:
''')]),
]
